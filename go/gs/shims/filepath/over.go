package filepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"

	"vsim/gs/simos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	return filepath.Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := simos.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(p, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, fi fs.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	es, err := simos.ReadDir(p)
	err1 := fn(p, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		name := filepath.Join(p, e.Name())
		fi, err := simos.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else if err := walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	hasMeta := func(p string) bool {
		for i := range p {
			if p[i] == '*' || p[i] == '?' || p[i] == '[' || p[i] == '\\' {
				return true
			}
		}
		return false
	}
	if !hasMeta(pattern) {
		if _, err := simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := path.Split(pattern)
	if dir == "" {
		dir = "."
	} else {
		dir = path.Clean(dir)
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := simos.ReadDir(d)
		if err != nil {
			continue
		}
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			if ok, _ := filepath.Match(file, n); ok {
				out = append(out, filepath.Join(d, n))
			}
		}
	}
	return out, nil
}
