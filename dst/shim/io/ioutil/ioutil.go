package ioutil

import (
	"io"
	"io/fs"

	sos "verif/dst/shim/os"
)

func ReadFile(name string) ([]byte, error)                    { return sos.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return sos.WriteFile(name, b, perm) }
func ReadAll(r io.Reader) ([]byte, error)                     { return io.ReadAll(r) }
func TempFile(dir, pattern string) (*sos.File, error)         { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return sos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	ds, err := sos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	out := make([]fs.FileInfo, 0, len(ds))
	for _, d := range ds {
		i, err := d.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
