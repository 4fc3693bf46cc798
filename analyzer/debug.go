package main

import (
	"fmt"
	"sort"
)

func (s *State) dump() {
	for _, f := range s.frames {
		fmt.Printf("  FRAME %s b%d.%d ctx%d\n", f.fn.Name(), f.block.Index, f.idx, f.ctx)
		var ks []string
		for v, t := range f.env {
			ks = append(ks, fmt.Sprintf("     %s = %s", v.Name(), t))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	}
	for _, k := range keysT(s.heap) {
		fmt.Println("  HEAP", k, "=", s.heap[k])
	}
	for k := range s.dirty {
		fmt.Println("  DIRTY", k)
	}
	for _, k := range keysT(s.eqc) {
		fmt.Println("  EQ", k, "=", s.eqc[k])
	}
	for _, k := range keysT(s.nec) {
		fmt.Println("  NE", k, keysT(s.nec[k]))
	}
	for _, k := range keysT(s.bools) {
		fmt.Println("  BOOL", k, s.bools[k])
	}
	for _, k := range keysT(s.ivals) {
		fmt.Println("  IVAL", k, s.ivals[k])
	}
	for _, k := range keysT(s.hdr) {
		fmt.Print("  HDR ", k, " closed=", s.hdr[k].closed, ": ")
		for _, e := range keysT(s.hdr[k].e) {
			fmt.Print(e, "=", s.hdr[k].e[e].present, ":", s.hdr[k].e[e].val, " ")
		}
		fmt.Println()
	}
	for _, k := range keysT(s.maps) {
		fmt.Print("  MAP ", k, " open=", s.mapOpen[k], ": ")
		for _, e := range keysT(s.maps[k]) {
			fmt.Print(e, "=", s.maps[k][e].present, ":", s.maps[k][e].val, " ")
		}
		fmt.Println()
	}
	for _, k := range keysT(s.lists) {
		fmt.Println("  LIST", k, s.lists[k])
	}
	for _, e := range s.trace {
		fmt.Println("  T", e)
	}
}
