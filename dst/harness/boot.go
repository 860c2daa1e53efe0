// Package harness holds the scenarios, fault plans and oracles that decide the
// properties. It drives the woven code under the simulator in package sim.
package harness

import (
	"fmt"
	stdos "os"
	"strings"
	"time"

	"github.com/spf13/afero"
	"github.com/spf13/viper"

	sos "verif/dst/shim/os"
	"verif/dst/sim"
)

// simFs gives viper the simulated file system.
type simFs struct{}

var realCwd = func() string { d, _ := stdos.Getwd(); return d }()

func vp(p string) string {
	if realCwd != "/" && strings.HasPrefix(p, realCwd) {
		p = strings.TrimPrefix(p, realCwd)
		if p == "" {
			p = "/"
		}
	}
	return p
}

func ff(f *sos.File, err error) (afero.File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (simFs) Create(n string) (afero.File, error)       { return ff(sos.Create(vp(n))) }
func (simFs) Mkdir(n string, p stdos.FileMode) error    { return sos.Mkdir(vp(n), p) }
func (simFs) MkdirAll(n string, p stdos.FileMode) error { return sos.MkdirAll(vp(n), p) }
func (simFs) Open(n string) (afero.File, error)         { return ff(sos.Open(vp(n))) }
func (simFs) Remove(n string) error                     { return sos.Remove(vp(n)) }
func (simFs) RemoveAll(n string) error                  { return sos.RemoveAll(vp(n)) }
func (simFs) Rename(a, b string) error                  { return sos.Rename(vp(a), vp(b)) }
func (simFs) Stat(n string) (stdos.FileInfo, error)     { return sos.Stat(vp(n)) }
func (simFs) Name() string                              { return "sim" }
func (simFs) Chmod(n string, m stdos.FileMode) error    { return sos.Chmod(vp(n), m) }
func (simFs) Chtimes(n string, a, m time.Time) error    { return sos.Chtimes(vp(n), a, m) }
func (simFs) OpenFile(n string, f int, p stdos.FileMode) (afero.File, error) {
	return ff(sos.OpenFile(vp(n), f, p))
}

var _ afero.Fs = simFs{}

// enterProcess puts the globals of the woven packages in the state they have
// when a process starts. It must run on a goroutine of the process.
func enterProcess(keep func(string) bool, args ...string) {
	viper.Reset()
	viper.SetFs(simFs{})
	stdos.Args = append([]string{"p2pcrawler"}, args...)
	sos.Args = stdos.Args
	if keep == nil {
		sim.ResetAll()
	} else {
		sim.ResetSome(keep)
	}
}

// NodeCfg is what a deployment writes in conf/config.json.
type NodeCfg struct {
	Port, Pool         int
	Bootstrap          []string
	QueueSize, FetchWP int
	Pprof              bool
	Level              string
}

func (c NodeCfg) JSON() []byte {
	q := make([]string, len(c.Bootstrap))
	for i, b := range c.Bootstrap {
		q[i] = fmt.Sprintf("%q", b)
	}
	return []byte(fmt.Sprintf(`{
  "dht": {"Port": %d, "WorkPoolSize": %d, "BootstrapNodes": [%s]},
  "fetchTorrent": {"InfoHashQueueSize": %d, "WorkPoolSize": %d},
  "pprof": {"NeedRun": %v},
  "logger": {"Level": %q}
}`, c.Port, c.Pool, strings.Join(q, ", "), c.QueueSize, c.FetchWP, c.Pprof, c.level()))
}

var levels = []string{"Info", "Debug", "ERROR", "panic", "Trace", "Warn"}

func (c NodeCfg) level() string {
	if c.Level == "" {
		return levels[0]
	}
	return c.Level
}
