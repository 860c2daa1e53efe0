package fmt

import (
	real "fmt"

	sos "verif/dst/shim/os"
)

func Print(v ...any) (int, error)            { return sos.Stdout.Write([]byte(real.Sprint(v...))) }
func Printf(f string, v ...any) (int, error) { return sos.Stdout.Write([]byte(real.Sprintf(f, v...))) }
func Println(v ...any) (int, error)          { return sos.Stdout.Write([]byte(real.Sprintln(v...))) }
