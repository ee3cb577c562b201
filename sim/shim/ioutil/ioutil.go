// Package ioutil is the simulated replacement of io/ioutil.
package ioutil

import (
	"io"
	"io/fs"

	"verifsim/shim/os"
)

var Discard io.Writer = io.Discard

func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	r := make([]fs.FileInfo, 0, len(es))
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
