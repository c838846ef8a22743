package main

import "unsafe"

func addrOfCell(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }
