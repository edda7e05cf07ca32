package fcrp2pserver

import (
	"bufio"
	"io"
	"net"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

// ghost state of one message read: the connection, how far into its stream of bytes it has been
// read, whether a read has failed, and the bytes decoded
var gvConn net.Conn
var gvPos int
var gvDecodedLen int
var gvDecodes int
var gvResult *fcrmessages.FCRMessage

// the bytes on their way over the connection
func specUFByte(pos int) byte { return 0 }

func specPrefix() int {
	return int(specUFByte(0))<<24 + int(specUFByte(1))<<16 + int(specUFByte(2))<<8 + int(specUFByte(3))
}

func spec_readFull(r io.Reader, buf []byte, n int, err error) {
	gvAssert("C20.reads-from-the-connection", func() bool { return gvSame(r, gvConn) })
	gvAssert("C20.reads-no-more-than-the-prefix-says", func() bool {
		return gvPos == 0 && len(buf) <= 4 || gvPos < 4 && gvPos+len(buf) <= 4 || gvPos >= 4 && gvPos+len(buf) <= 4+specPrefix()
	})
	at := gvPos
	gvAssume("the bytes a read delivers are the next ones of the stream", func() bool { return gvForall(0, n, func(i int) bool { return buf[i] == specUFByte(at+i) }) })
	gvPos += n
}

func spec_decodes(data []byte) {
	gvAssert("C20.decodes-the-whole-message-read", func() bool {
		return gvPos == 4+specPrefix() && len(data) == specPrefix() &&
			gvForall(0, len(data), func(i int) bool { return data[i] == specUFByte(4+i) })
	})
	gvDecodes++
}

func spec_decoded(data []byte, m *fcrmessages.FCRMessage, err error) { gvResult = m }

//gv:target readTCPMessage
//gv:props C20
//gv:nofalsify
//gv:nopanic C20.read-no-panic
//gv:aftercall io.ReadFull spec_readFull
//gv:aftercall (net.Conn).Read spec_readFull2
//gv:oncall common/pkg/fcrmessages.FCRMsgFromBytes spec_decodes
//gv:aftercall common/pkg/fcrmessages.FCRMsgFromBytes spec_decoded
func contract_ReadFraming(conn net.Conn, timeout time.Duration) {
	gvRequires(func() bool { return conn != nil })
	gvConn = conn
	gvPos, gvDecodes = 0, 0
	gvResult = nil
	m, err := readTCPMessage(conn, timeout)
	gvEnsures("C20.returns-the-message-read", func() bool { return err != nil || gvDecodes == 1 && m == gvResult && gvPos == 4+specPrefix() })
}

func spec_readFull2(c net.Conn, buf []byte, n int, err error) { spec_readFull(c, buf, n, err) }

// ghost state of one message sent: its bytes, how many bytes of the frame are handed over and
// whether they are flushed
var gvData []byte
var gvEncoded bool
var gvEncodedMsg *fcrmessages.FCRMessage
var gvOut int
var gvFailed bool
var gvFlushed bool

func spec_encoded(m *fcrmessages.FCRMessage, data []byte, err error) {
	if err == nil {
		gvAssume("a message is shorter than 4 GB", func() bool { return len(data) < 1<<32 })
		gvData, gvEncoded, gvEncodedMsg = data, true, m
	}
}

func spec_buffers(c io.Writer, w *bufio.Writer) {
	gvAssert("C20.writes-to-the-connection", func() bool { return gvSame(c, gvConn) })
}

func specFrameByte(i int) byte {
	if i == 0 {
		return byte(len(gvData) >> 24)
	}
	if i == 1 {
		return byte(len(gvData) >> 16)
	}
	if i == 2 {
		return byte(len(gvData) >> 8)
	}
	if i == 3 {
		return byte(len(gvData))
	}
	return gvData[i-4]
}

func specOut(p []byte, n int, err error) {
	gvAssert("C20.sends-the-length-then-the-message", func() bool {
		return gvEncoded && gvOut+len(p) <= 4+len(gvData) && gvForall(0, len(p), func(i int) bool { return p[i] == specFrameByte(gvOut+i) })
	})
	if err != nil {
		gvFailed = true
	}
	gvOut += len(p)
	gvFlushed = false
}

func spec_bufWrite(w *bufio.Writer, p []byte, n int, err error) { specOut(p, n, err) }

func spec_connWrite(c net.Conn, p []byte, n int, err error) {
	gvAssert("C20.writes-to-the-connection", func() bool { return c == gvConn })
	specOut(p, n, err)
	gvFlushed = true
}

func spec_flush(w *bufio.Writer, err error) {
	if err != nil {
		gvFailed = true
	}
	gvFlushed = true
}

//gv:target sendTCPMessage
//gv:props C20
//gv:nofalsify
//gv:nopanic C20.write-no-panic
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).FCRMsgToBytes spec_encoded
//gv:aftercall bufio.NewWriter spec_buffers
//gv:aftercall (*bufio.Writer).Write spec_bufWrite
//gv:aftercall (net.Conn).Write spec_connWrite
//gv:aftercall (*bufio.Writer).Flush spec_flush
func contract_SendFraming(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.Duration) {
	gvRequires(func() bool { return conn != nil && fcrMsg != nil })
	gvConn = conn
	gvData, gvEncodedMsg = nil, nil
	gvEncoded, gvFailed, gvFlushed = false, false, false
	gvOut = 0
	err := sendTCPMessage(conn, fcrMsg, timeout)
	gvEnsures("C20.sends-the-whole-message", func() bool { return err != nil || gvEncoded && gvEncodedMsg == fcrMsg && gvOut == 4+len(gvData) && gvFlushed })
	gvEnsures("C20.reports-failure-to-send", func() bool { return err != nil || !gvFailed })
}
