package vxm

import (
	"archive/zip"
	"io"
)

//vx:redirect mime.AddExtensionType
func addExtensionType(ext, typ string) error { return nil }

//vx:redirect runtime.Caller
func caller(skip int) (pc uintptr, file string, line int, ok bool) { return }

//vx:redirect archive/zip.compressor
func zipCompressor(uint16) zip.Compressor {
	return func(w io.Writer) (io.WriteCloser, error) { return copied{w: w}, nil }
}

//vx:redirect archive/zip.decompressor
func zipDecompressor(uint16) zip.Decompressor { return io.NopCloser }

type copied struct{ w io.Writer }

func (c copied) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c copied) Close() error                { return nil }
