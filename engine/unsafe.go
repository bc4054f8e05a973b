package main

import "unsafe"

// sliceFrom views the n cells starting at v (which must lie in one backing array).
func sliceFrom(v ptr, n int) []Value { return unsafe.Slice(v, n) }

func addrOf(v ptr) uintptr { return uintptr(unsafe.Pointer(v)) }

func sliceAddr(a []Value) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(a))) }

func at(addr uintptr) ptr { return ptr(unsafe.Pointer(addr)) }

const cellSize = unsafe.Sizeof(Value(nil))
