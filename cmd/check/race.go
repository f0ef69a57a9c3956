//go:build race

package main

import "vh/snapws"

// The generic methods of the library are compiled where they are instantiated.
// The harness is compiled without race instrumentation; instantiating them here
// too, in the first package the linker reads, selects the instrumented code.
var _ = snapws.NewManager[int]
var _ = snapws.NewRoomManager[int]
var generic = []any{&snapws.Manager[int]{}, &snapws.ManagedConn[int]{}, &snapws.RoomManager[int]{}, &snapws.Room[int]{}}
