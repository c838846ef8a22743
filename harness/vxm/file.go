package vxm

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

var files map[string][]byte

// Dir begins an empty directory tree as the working directory; natively it is a scratch directory.
// The function it returns ends it.
func Dir(sub ...string) func() {
	files = map[string][]byte{}
	if vx.Symbolic() {
		return func() {}
	}
	d, err := os.MkdirTemp("", "vxm")
	if err != nil {
		panic(err)
	}
	was, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	for _, s := range sub {
		if err := os.MkdirAll(filepath.Join(d, s), 0o755); err != nil {
			panic(err)
		}
	}
	return func() {
		os.Chdir(was)
		os.RemoveAll(d)
	}
}

// PutFile writes a file.
func PutFile(name string, b []byte) {
	if err := os.WriteFile(name, b, 0o600); err != nil {
		panic(err)
	}
}

func clean(n string) string { return strings.TrimPrefix(n, "./") }

//vx:redirect os.WriteFile
func writeFile(name string, data []byte, perm os.FileMode) error {
	if files == nil {
		files = map[string][]byte{}
	}
	files[clean(name)] = append([]byte{}, data...)
	return nil
}

//vx:redirect os.ReadFile
func readFile(name string) ([]byte, error) {
	b, ok := files[clean(name)]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return append([]byte{}, b...), nil
}

//vx:redirect os.Remove
func remove(name string) error {
	if _, ok := files[clean(name)]; !ok {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	delete(files, clean(name))
	return nil
}

//vx:redirect os.ReadDir
func readDir(name string) ([]os.DirEntry, error) {
	p := strings.TrimSuffix(clean(name), "/") + "/"
	if clean(name) == "." || clean(name) == "" {
		p = ""
	}
	var l []string
	for n := range files {
		if r := strings.TrimPrefix(n, p); strings.HasPrefix(n, p) && !strings.Contains(r, "/") {
			l = append(l, r)
		}
	}
	sort.Strings(l)
	r := []os.DirEntry{}
	for _, n := range l {
		r = append(r, entry(n))
	}
	return r, nil
}

type entry string

func (e entry) Name() string               { return string(e) }
func (e entry) IsDir() bool                { return false }
func (e entry) Type() fs.FileMode          { return 0 }
func (e entry) Info() (fs.FileInfo, error) { return e, nil }
func (e entry) Size() int64                { return 0 }
func (e entry) Mode() fs.FileMode          { return 0o600 }
func (e entry) ModTime() time.Time         { return time.Time{} }
func (e entry) Sys() any                   { return nil }

//vx:redirect github.com/joho/godotenv.Load
func loadEnv(names ...string) error {
	return &fs.PathError{Op: "open", Path: ".env", Err: fs.ErrNotExist}
}
