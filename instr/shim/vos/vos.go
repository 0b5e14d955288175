// Package vos splits whole-file operations into the steps the operating system
// makes, with a scheduling point between them.
package vos

import (
	"io"
	"os"

	"github.com/miniLCT/gosb/hack/vpoint"
)

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	vpoint.P()
	half := len(data) / 2
	_, err = f.Write(data[:half])
	if err == nil {
		vpoint.P()
		_, err = f.Write(data[half:])
	}
	vpoint.P()
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	vpoint.P()
	var out []byte
	buf := make([]byte, 24)
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if i < 3 {
			vpoint.P()
		} else {
			buf = make([]byte, 4096)
		}
	}
}
