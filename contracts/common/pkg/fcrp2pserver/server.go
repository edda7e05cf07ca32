package fcrp2pserver

import (
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

// SpecWriter: a writer bound to a connection
func SpecWriter(w *FCRServerWriter) bool { return w != nil && w.conn != nil }

// SpecReader: a reader bound to a connection
func SpecReader(r *FCRServerReader) bool { return r != nil && r.conn != nil }

//gv:target (*FCRServerWriter).Write
//gv:props C20,C12
//gv:modular
//gv:nopanic C20.write-no-panic
func contract_Write(w *FCRServerWriter, msg *fcrmessages.FCRMessage, timeout time.Duration) {
	gvRequires(func() bool { return SpecWriter(w) && msg != nil })
	w.Write(msg, timeout)
}

//gv:target (*FCRServerWriter).WriteInvalidMessage
//gv:props C20,C12
//gv:modular
//gv:nopanic C20.write-no-panic
func contract_WriteInvalidMessage(w *FCRServerWriter, timeout time.Duration) {
	gvRequires(func() bool { return SpecWriter(w) })
	w.WriteInvalidMessage(timeout)
}

//gv:target (*FCRServerReader).Read
//gv:props C20,C12
//gv:modular
//gv:nopanic C20.read-no-panic
//gv:fresh 0
func contract_Read(r *FCRServerReader, timeout time.Duration) {
	gvRequires(func() bool { return SpecReader(r) })
	msg, err := r.Read(timeout)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
}
