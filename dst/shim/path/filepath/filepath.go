package filepath

import (
	"io/fs"
	real "path/filepath"

	sos "verif/dst/shim/os"
	"verif/dst/sim"
)

func Abs(p string) (string, error) { return sim.Abs(p), nil }
func EvalSymlinks(p string) (string, error) {
	_, err := sos.Stat(p)
	return real.Clean(p), err
}
func Walk(root string, fn real.WalkFunc) error {
	fi, err := sos.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}
func walk(p string, fi fs.FileInfo, fn real.WalkFunc) error {
	if err := fn(p, fi, nil); err != nil || !fi.IsDir() {
		if err == real.SkipDir && fi.IsDir() {
			return nil
		}
		return err
	}
	ds, err := sos.ReadDir(p)
	if err != nil {
		return fn(p, fi, err)
	}
	for _, d := range ds {
		i, err := d.Info()
		q := real.Join(p, d.Name())
		if err == nil {
			err = walk(q, i, fn)
		}
		if err != nil {
			if err == real.SkipDir {
				continue
			}
			return err
		}
	}
	return nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}
func Glob(pattern string) ([]string, error) {
	dir, base := real.Split(pattern)
	if dir == "" {
		dir = "."
	}
	ds, err := sos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, d := range ds {
		if ok, e := real.Match(base, d.Name()); e != nil {
			return nil, e
		} else if ok {
			out = append(out, real.Join(real.Dir(pattern), d.Name()))
		}
	}
	return out, nil
}
