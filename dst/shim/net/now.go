package net

import (
	"time"

	stime "verif/dst/shim/time"
)

func now() time.Time { return stime.Now() }
