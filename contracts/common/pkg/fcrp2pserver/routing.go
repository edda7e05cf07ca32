package fcrp2pserver

import (
	"net"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

//gv:target readTCPMessage
//gv:props C20
//gv:modular
//gv:nopanic C20.read-no-panic
//gv:fresh 0
func contract_ReadMessage(conn net.Conn, timeout time.Duration) {
	gvRequires(func() bool { return conn != nil })
	m, err := readTCPMessage(conn, timeout)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (m != nil) })
}

// ---- incoming connections

type gvHandler = func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error

// ghost state of one connection: the handlers of its address, the message read last, whether it is
// yet to be answered, whether an error calls for dropping the connection, whether it is closed
var gvHandlers map[int32]gvHandler
var gvMsg *fcrmessages.FCRMessage
var gvPending bool
var gvBroken bool
var gvClosed bool

func spec_reads(conn net.Conn, timeout time.Duration) {
	gvAssert("C20.every-message-is-answered", func() bool { return !gvPending })
	gvAssert("C20.drops-a-connection-that-failed", func() bool { return !gvBroken && !gvClosed })
	gvAssert("C20.reads-its-own-connection", func() bool { return conn == gvConn })
}

func spec_read(conn net.Conn, timeout time.Duration, m *fcrmessages.FCRMessage, err error) {
	gvMsg = nil
	if err == nil {
		gvMsg, gvPending = m, true
	} else if !isTimeoutError(err) {
		gvBroken = true
	}
}

func spec_handles(h gvHandler, reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvAssert("C20.only-the-handler-of-its-type", func() bool { return gvPending && gvMsg != nil && request == gvMsg && gvSame(h, gvHandlers[gvMsg.GetMessageType()]) })
	gvAssert("C20.answers-on-the-same-connection", func() bool { return reader != nil && reader.conn == gvConn && writer != nil && writer.conn == gvConn })
}

func spec_handled(h gvHandler, reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage, err error) {
	gvPending = false
	if err != nil {
		gvBroken = true
	}
}

func spec_invalid(conn net.Conn, timeout time.Duration, err error) {
	gvAssert("C20.invalid-answer-only-for-unknown-types", func() bool { return gvPending && gvMsg != nil && gvHandlers[gvMsg.GetMessageType()] == nil && conn == gvConn })
	gvPending = false
	if err != nil {
		gvBroken = true
	}
}

func spec_closed(conn net.Conn, err error) {
	if conn == gvConn {
		gvClosed = true
	}
}

func inv_answered(conn net.Conn) bool { return !gvPending && !gvBroken && !gvClosed && conn == gvConn }

//gv:target (*FCRP2PServer).handleIncomingConnection
//gv:props C20
//gv:nofalsify
//gv:nopanic C20.incoming-no-panic
//gv:oncall common/pkg/fcrp2pserver.readTCPMessage spec_reads
//gv:aftercall common/pkg/fcrp2pserver.readTCPMessage spec_read
//gv:oncall dynamic spec_handles
//gv:aftercall dynamic spec_handled
//gv:aftercall common/pkg/fcrp2pserver.sendInvalidMessage spec_invalid
//gv:aftercall (net.Conn).Close spec_closed
//gv:use inv_answered
func contract_Incoming(s *FCRP2PServer, conn net.Conn, handlers map[int32]func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error) {
	gvRequires(func() bool { return s != nil && conn != nil && conn.RemoteAddr() != nil })
	gvConn, gvHandlers = conn, handlers
	gvMsg = nil
	gvPending, gvBroken, gvClosed = false, false, false
	s.handleIncomingConnection(conn, handlers)
	gvEnsures("C20.closes-the-connection-it-drops", func() bool { return gvClosed })
}

// ---- registration of handlers and requesters

//gv:target (*FCRP2PServer).AddHandler
//gv:props C20
//gv:nopanic C20.registration-no-panic
func contract_AddHandler(s *FCRP2PServer, listenAddr string, msgType int32, handler func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error, otherAddr string, other int32) {
	gvRequires(func() bool { return s != nil })
	gvRequires(func() bool {
		return gvForallStr(func(a string) bool { _, ok := s.handlers[a]; return !ok || s.handlers[a] != nil })
	})
	gvRequires(func() bool {
		return gvForallStr(func(a string) bool {
			return gvForallStr(func(b string) bool {
				return a == b || s.handlers[a] == nil || !gvSame(s.handlers[a], s.handlers[b])
			})
		})
	})
	start := s.start
	_, known := s.handlers[listenAddr]
	before := s.handlers[otherAddr][other]
	r := s.AddHandler(listenAddr, msgType, handler)
	gvEnsures("C20.registers-the-handler-for-its-type", func() bool { return start || !known || gvSame(s.handlers[listenAddr][msgType], handler) })
	gvEnsures("C20.registers-for-no-other-type", func() bool {
		return !start && known && otherAddr == listenAddr && other == msgType || gvSame(s.handlers[otherAddr][other], before)
	})
	gvEnsures("C20.same-server", func() bool { return r == s })
}

//gv:target (*FCRP2PServer).AddRequester
//gv:props C20
//gv:nopanic C20.registration-no-panic
func contract_AddRequester(s *FCRP2PServer, msgType int32, requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error), other int32) {
	gvRequires(func() bool { return s != nil && s.requesters != nil })
	start := s.start
	before := s.requesters[other]
	r := s.AddRequester(msgType, requester)
	gvEnsures("C20.registers-the-requester-for-its-type", func() bool { return start || gvSame(s.requesters[msgType], requester) })
	gvEnsures("C20.registers-for-no-other-type", func() bool { return !start && other == msgType || gvSame(s.requesters[other], before) })
	gvEnsures("C20.same-server", func() bool { return r == s })
}

// ---- outgoing connections

func specPool(p *communicationPool) bool {
	return p != nil && p.registerMgr != nil && fcrregistermgr.SpecIdle(p.registerMgr) && p.activeGateways != nil && p.activeProviders != nil &&
		gvForallStr(func(k string) bool { return p.activeGateways[k] == nil || p.activeGateways[k].conn != nil }) &&
		gvForallStr(func(k string) bool { return p.activeProviders[k] == nil || p.activeProviders[k].conn != nil })
}

var gvID *nodeid.NodeID
var gvGateway register.GatewayRegistrar
var gvProvider register.ProviderRegistrar
var gvDialed net.Conn

func spec_gateway(m *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.GatewayRegistrar) {
	gvAssert("C20.connects-to-the-node-asked", func() bool { return id == gvID })
	gvGateway = e
}

func spec_provider(m *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.ProviderRegistrar) {
	gvAssert("C20.connects-to-the-node-asked", func() bool { return id == gvID })
	gvProvider = e
}

func spec_dialed(network, address string, conn net.Conn, err error) {
	gvAssume("net.Dial returns a connection or an error", func() bool { return (err == nil) == (conn != nil) })
	gvDialed = conn
}

//gv:target (*communicationPool).getGatewayConn
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.connect-no-panic
//gv:locks C19.pool-locks
//gv:guard communicationPool.activeGateways activeGatewaysLock C19.pool-guarded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_gateway
//gv:aftercall net.Dial spec_dialed
func contract_GatewayConn(c *communicationPool, id *nodeid.NodeID, accessFrom int, other string) {
	gvRequires(func() bool { return specPool(c) && id != nil })
	gvID, gvGateway, gvDialed = id, nil, nil
	before := c.activeGateways[id.ToString()]
	beforeOther := c.activeGateways[other]
	comm, err := c.getGatewayConn(id, accessFrom)
	gvEnsures("C20.connection-or-error", func() bool { return (err == nil) == (comm != nil) && (comm == nil || comm.conn != nil) })
	gvEnsures("C20.reuses-the-connection", func() bool { return before == nil || err == nil && comm == before })
	gvEnsures("C20.keeps-the-connection-of-the-node", func() bool { return err != nil || c.activeGateways[id.ToString()] == comm })
	gvEnsures("C20.keeps-other-connections", func() bool { return other == id.ToString() || c.activeGateways[other] == beforeOther })
	gvEnsures("C20.new-connection-is-the-one-made", func() bool { return err != nil || before != nil || comm.conn == gvDialed })
}

//gv:target (*communicationPool).getProviderConn
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.connect-no-panic
//gv:locks C19.pool-locks
//gv:guard communicationPool.activeProviders activeProvidersLock C19.pool-guarded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetProvider spec_provider
//gv:aftercall net.Dial spec_dialed
func contract_ProviderConn(c *communicationPool, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specPool(c) && id != nil })
	gvID, gvProvider, gvDialed = id, nil, nil
	before := c.activeProviders[id.ToString()]
	beforeOther := c.activeProviders[other]
	comm, err := c.getProviderConn(id)
	gvEnsures("C20.connection-or-error", func() bool { return (err == nil) == (comm != nil) && (comm == nil || comm.conn != nil) })
	gvEnsures("C20.reuses-the-connection", func() bool { return before == nil || err == nil && comm == before })
	gvEnsures("C20.keeps-the-connection-of-the-node", func() bool { return err != nil || c.activeProviders[id.ToString()] == comm })
	gvEnsures("C20.keeps-other-connections", func() bool { return other == id.ToString() || c.activeProviders[other] == beforeOther })
	gvEnsures("C20.new-connection-is-the-one-made", func() bool { return err != nil || before != nil || comm.conn == gvDialed })
}

//gv:target (*communicationPool).removeActiveGateway
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.disconnect-no-panic
//gv:locks C19.pool-locks
//gv:guard communicationPool.activeGateways activeGatewaysLock C19.pool-guarded
func contract_RemoveGateway(c *communicationPool, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specPool(c) && id != nil })
	beforeOther := c.activeGateways[other]
	c.removeActiveGateway(id)
	gvEnsures("C20.forgets-the-connection", func() bool { return c.activeGateways[id.ToString()] == nil })
	gvEnsures("C20.keeps-other-connections", func() bool { return other == id.ToString() || c.activeGateways[other] == beforeOther })
}

//gv:target (*communicationPool).removeActiveProvider
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.disconnect-no-panic
//gv:locks C19.pool-locks
//gv:guard communicationPool.activeProviders activeProvidersLock C19.pool-guarded
func contract_RemoveProvider(c *communicationPool, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specPool(c) && id != nil })
	beforeOther := c.activeProviders[other]
	c.removeActiveProvider(id)
	gvEnsures("C20.forgets-the-connection", func() bool { return c.activeProviders[id.ToString()] == nil })
	gvEnsures("C20.keeps-other-connections", func() bool { return other == id.ToString() || c.activeProviders[other] == beforeOther })
}

// ---- requests to other nodes

type gvRequester = func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error)

// ghost state of one request: the server, the kind asked, the access point to use, the connection
// taken from the pool and what was answered
var gvServer *FCRP2PServer
var gvType int32
var gvFrom int
var gvComm *communicationChannel
var gvCalls int
var gvAnswer *fcrmessages.FCRMessage

func spec_gatewayConn(p *communicationPool, id *nodeid.NodeID, from int, c *communicationChannel, err error) {
	gvAssert("C20.asks-the-node-named", func() bool { return id == gvID })
	gvAssert("C20.reaches-the-node-through-its-own-address", func() bool { return from == gvFrom })
	gvComm = c
}

func spec_providerConn(p *communicationPool, id *nodeid.NodeID, c *communicationChannel, err error) {
	gvAssert("C20.asks-the-node-named", func() bool { return id == gvID })
	gvComm = c
}

func spec_requests(r gvRequester, reader *FCRServerReader, writer *FCRServerWriter, args []interface{}) {
	gvAssert("C20.only-the-requester-of-its-type", func() bool { return gvSame(r, gvServer.requesters[gvType]) })
	gvAssert("C20.asks-on-the-connection-of-the-node", func() bool {
		return gvComm != nil && reader != nil && writer != nil && reader.conn == gvComm.conn && writer.conn == gvComm.conn
	})
	gvAssert("C20.one-request-at-a-time-on-a-connection", func() bool { return gvLockState(&gvComm.lock) != 0 })
}

func spec_requested(r gvRequester, reader *FCRServerReader, writer *FCRServerWriter, args []interface{}, m *fcrmessages.FCRMessage, err error) {
	gvAssume("a requester returns a message or an error", func() bool { return (err == nil) == (m != nil) })
	gvCalls++
	gvAnswer = m
}

func specRequest(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, from int) {
	gvServer, gvID, gvType, gvFrom = s, id, msgType, from
	gvComm, gvAnswer, gvGateway, gvProvider, gvDialed = nil, nil, nil, nil, nil
	gvCalls = 0
}

// SpecServer: a peer server ready to be asked
func SpecServer(s *FCRP2PServer) bool { return s != nil && specPool(s.pool) && s.requesters != nil }

//gv:target (*FCRP2PServer).RequestGatewayFromGateway
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.request-no-panic
//gv:locks C19.request-locks
//gv:aftercall net.Dial spec_dialed
//gv:aftercall (*common/pkg/fcrp2pserver.communicationPool).getGatewayConn spec_gatewayConn
//gv:oncall dynamic spec_requests
//gv:aftercall dynamic spec_requested
func contract_RequestGatewayFromGateway(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return SpecServer(s) && id != nil })
	specRequest(s, id, msgType, 0)
	msg, err := s.RequestGatewayFromGateway(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
	gvEnsures("C20.returns-the-answer", func() bool { return err != nil || gvCalls == 1 && msg == gvAnswer })
	gvEnsures("C20.drops-a-connection-that-failed", func() bool { return gvCalls == 0 || err == nil || s.pool.activeGateways[id.ToString()] == nil })
}

// what callers rely on
//
//gv:target (*FCRP2PServer).RequestGatewayFromGateway
//gv:props C20
//gv:assumed proved as contract RequestGatewayFromGateway for every server in the state NewServer establishes; its changes stay within the connection pool
func contract_RequestGatewayFromGatewayCall(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return s != nil && id != nil })
	msg, err := s.RequestGatewayFromGateway(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
}

//gv:target (*FCRP2PServer).RequestGatewayFromProvider
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.request-no-panic
//gv:locks C19.request-locks
//gv:aftercall net.Dial spec_dialed
//gv:aftercall (*common/pkg/fcrp2pserver.communicationPool).getGatewayConn spec_gatewayConn
//gv:oncall dynamic spec_requests
//gv:aftercall dynamic spec_requested
func contract_RequestGatewayFromProvider(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return SpecServer(s) && id != nil })
	specRequest(s, id, msgType, 1)
	msg, err := s.RequestGatewayFromProvider(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
	gvEnsures("C20.returns-the-answer", func() bool { return err != nil || gvCalls == 1 && msg == gvAnswer })
	gvEnsures("C20.drops-a-connection-that-failed", func() bool { return gvCalls == 0 || err == nil || s.pool.activeGateways[id.ToString()] == nil })
}

// what callers rely on
//
//gv:target (*FCRP2PServer).RequestGatewayFromProvider
//gv:props C20
//gv:assumed proved as contract RequestGatewayFromProvider for every server in the state NewServer establishes; its changes stay within the connection pool
func contract_RequestGatewayFromProviderCall(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return s != nil && id != nil })
	msg, err := s.RequestGatewayFromProvider(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
}

//gv:target (*FCRP2PServer).RequestProvider
//gv:props C20,C19
//gv:nofalsify
//gv:nopanic C20.request-no-panic
//gv:locks C19.request-locks
//gv:aftercall net.Dial spec_dialed
//gv:aftercall (*common/pkg/fcrp2pserver.communicationPool).getProviderConn spec_providerConn
//gv:oncall dynamic spec_requests
//gv:aftercall dynamic spec_requested
func contract_RequestProvider(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return SpecServer(s) && id != nil })
	specRequest(s, id, msgType, 0)
	msg, err := s.RequestProvider(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
	gvEnsures("C20.returns-the-answer", func() bool { return err != nil || gvCalls == 1 && msg == gvAnswer })
	gvEnsures("C20.drops-a-connection-that-failed", func() bool { return gvCalls == 0 || err == nil || s.pool.activeProviders[id.ToString()] == nil })
}

// what callers rely on
//
//gv:target (*FCRP2PServer).RequestProvider
//gv:props C20
//gv:assumed proved as contract RequestProvider for every server in the state NewServer establishes; its changes stay within the connection pool
func contract_RequestProviderCall(s *FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvRequires(func() bool { return s != nil && id != nil })
	msg, err := s.RequestProvider(id, msgType, args...)
	gvEnsures("C20.message-or-error", func() bool { return (err == nil) == (msg != nil) })
}

// a new server is in the state the contracts of its operations ask for
//
//gv:target NewFCRP2PServer
//gv:props C20
//gv:nofalsify
//gv:nopanic C20.create-no-panic
func contract_NewServer(listenAddrs []string, registerMgr *fcrregistermgr.FCRRegisterMgr, defaultTimeout time.Duration, typ int32) {
	gvRequires(func() bool { return registerMgr != nil && fcrregistermgr.SpecIdle(registerMgr) })
	s := NewFCRP2PServer(listenAddrs, registerMgr, defaultTimeout)
	gvEnsures("C20.new-server-is-usable", func() bool { return SpecServer(s) && !s.start })
	gvEnsures("C20.new-server-has-no-requesters", func() bool { return s.requesters[typ] == nil })
}
