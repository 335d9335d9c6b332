BUGS = []
def bug(id, property, needs, what, pkg, *edits, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, pkg=pkg, edits=edits, **kw))
S = 'pkg/server/session.go'; V = 'pkg/server/server.go'; D = 'pkg/server/config_distributor.go'; E = 'pkg/server/event.go'

bug('c01-empty-startup-value', 'C01', 'a startup parameter with an empty value',
    'the startup message that reaches the database lacks parameters whose value is empty (and, if all are, the terminator)', 'server',
    ('pkg/pg/startup_message.go', '''	for _, param := range m.Parameters {
		messageBuffer.WriteString(param.Name)
		messageBuffer.WriteString(param.Value)

		hasParams = true
	}''', '''	for _, param := range m.Parameters {
		// Unset parameters are left to their defaults
		if param.Value == "" {
			continue
		}

		messageBuffer.WriteString(param.Name)
		messageBuffer.WriteString(param.Value)

		hasParams = true
	}'''),
    ('pkg/pg/startup_message.go', '''	hasParams := false

	// Dictionary is encoded''', '''	var hasParams bool

	// Dictionary is encoded'''))

bug('c01-shared-read-buffer', 'C01', 'a second message is read from the client while the first one is still queued for the database',
    'frames share the memory of a per-connection read buffer: a message that is still queued is overwritten by the next one', 'server',
    ('pkg/pg/conn.go', '''type Conn struct {
	conn net.Conn
}''', '''type Conn struct {
	conn net.Conn

	// Memory for received frames
	frameBuf []byte
}'''),
    ('pkg/pg/conn.go', '''	frame, err := ReadStandardFrame(h.conn)

	if err != nil {
		return nil, err
	}

	message, err''', '''	frame, err := readStandardFrame(h.conn, h.frameBuf)

	if err != nil {
		return nil, err
	}

	// Reuse the memory to reduce allocations
	h.frameBuf = frame[:0]

	message, err'''),
    ('pkg/pg/standard_frame.go', '''func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
	buffer := &bytes.Buffer{}

	// Grow''', '''func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
	return readStandardFrame(r, nil)
}

// readStandardFrame reads a standard frame using the given memory if it is big enough.
func readStandardFrame(r io.Reader, mem []byte) (StandardFrame, error) {
	buffer := bytes.NewBuffer(mem)

	// Grow'''))

bug('c02-large-message', 'C02', 'a database message of more than 16 MiB',
    'messages longer than 16 MiB end the session although PostgreSQL allows up to 1 GiB', 'server',
    ('pkg/pg/standard_frame.go', '''	// Read the rest of the frame
	_, err = io.CopyN(buffer, r, int64(frameLength-4))

	if err != nil {''', '''	// Refuse to buffer unreasonably large messages
	if frameLength > 1<<24 {
		return nil, ErrMalformedMessage
	}

	// Read the rest of the frame
	if _, err = io.CopyN(buffer, r, int64(frameLength-4)); err != nil {'''))

bug('c02-pooled-write-buffer', 'C02', 'two goroutines encoding messages at the same time, or a message whose frame is held across the encoding of another',
    'frames are encoded into pooled memory that is given back before the frame is written', 'server',
    ('pkg/pg/standard_frame.go', '''	var buffer WriteBuffer

	buffer.WriteByte(messageType)
	buffer.WriteInt32(int32(len(messageBody) + 4))
	buffer.WriteBytes(messageBody)

	return StandardFrame(buffer)''', '''	buffer := framePool.Get().(WriteBuffer)[:0]

	buffer.WriteByte(messageType)
	buffer.WriteInt32(int32(len(messageBody) + 4))
	buffer.WriteBytes(messageBody)

	// Keep small buffers to reduce memory allocations
	if cap(buffer) <= 4096 {
		framePool.Put(buffer)
	}

	return StandardFrame(buffer)'''),
    ('pkg/pg/standard_frame.go', '''import (
	"bytes"
	"io"
)
''', '''import (
	"bytes"
	"io"
	"sync"
)

// framePool keeps memory of encoded frames.
var framePool = sync.Pool{New: func() interface{} { return WriteBuffer{} }}
'''))

bug('c03-hangup-drops-queue', 'C03', 'the database sends messages and closes at once, while the client is slow to read',
    'the client connection is closed as soon as the database hangs up: what is still queued for the client is lost', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''		message, err := s.dbConn.RecvMessage()

		if err != nil {
			return err
		}
''', '''		message, err := s.dbConn.RecvMessage()

		// Database is gone, there is nothing to wait for
		if err != nil {
			s.Close()
			return err
		}
'''), (S, '''// NewSession initializes a new Session.
func''', '''// NewSession initializes a Session.
func'''))

bug('c04-shared-lock', 'C04', 'a client that stops reading while the database sends more than the queues and sockets hold, and then sends itself',
    'both dispatchers take the session lock while they log and queue a message: a full queue of one direction stops the other', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''		log.Infof("-> %s", clientMsg.Frame().Bytes())

		s.dbOut <- clientMsg
''', '''		s.dispatch(s.dbOut, clientMsg, "->")
'''),
    (S, '''		log.Infof("<- %s", dbMsg.Frame().Bytes())

		s.clientOut <- dbMsg
''', '''		s.dispatch(s.clientOut, dbMsg, "<-")
'''),
    (S, '''// waitForConfig returns''', '''// dispatch logs the message and puts it into the queue.
func (s *Session) dispatch(queue chan<- pg.Message, message pg.Message, prefix string) {
	// Keep the log in the order of messages
	s.mu.Lock()
	defer s.mu.Unlock()

	log.Infof("%s %s", prefix, message.Frame().Bytes())

	queue <- message
}

// waitForConfig returns'''))

bug('c05-negotiation-leak', 'C05', 'a client that hangs up (or is refused) before its session is established',
    'the session is closed only once negotiation succeeded: a client that fails to negotiate keeps its connection open', 'server',
    (S, '''	// Automatically close the session
	defer s.Close()

	// Initialize connection params (SSL, encoding, etc.)
	err := s.negotiateSessionParams()

	if err != nil {
		return err
	}
''', '''	// Initialize connection params (SSL, encoding, etc.)
	err := s.negotiateSessionParams()

	if err != nil {
		return err
	}

	// Automatically close the session
	defer s.Close()
'''))

bug('c05-half-open-db', 'C05', 'the client resets its connection while a message from the database cannot be delivered',
    'after a send error to the client the database connection is left alone: a client that is gone is noticed only by reading', 'server',
    (S, '\t\tlog.Errorf("session: error: %v", err)', '\t\tlog.Errorf("session: connection error: %v", err)'),
    (S, '''		message, err := s.clientConn.RecvMessage()

		if err != nil {
			return err
		}

		s.clientIn <- message
''', '''		message, err := s.clientConn.RecvMessage()

		// Connection errors other than the end of the stream are reported by the out pump
		if err != nil && err != io.EOF {
			<-s.closed.Done()
		}

		if err != nil {
			return err
		}

		s.clientIn <- message
'''),
    (S, '''	"errors"
	"fmt"
	"net"
''', '''	"errors"
	"fmt"
	"io"
	"net"
'''), (S, '''// NewSession initializes a new Session.
func''', '''// NewSession initializes a Session.
func'''))

bug('c06-session-limit-stall', 'C06', 'eight clients that connect and stay silent while another one connects',
    'a limit on concurrent negotiations makes silent clients keep every other one waiting', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''	log.Debug("session: waiting for the client startup message")

	// Receiving initial startup message from the client. It contains username, database name etc.
	startupMessage, err := s.clientConn.RecvStartupMessage()
''', '''	log.Debug("session: waiting for the client startup message")

	// Negotiate with at most 8 clients at the same time
	select {
	case negotiating <- struct{}{}:
		defer func() { <-negotiating }()

	case <-s.closed.Done():
		return ErrSessionClosed
	}

	// Receiving initial startup message from the client. It contains username, database name etc.
	startupMessage, err := s.clientConn.RecvStartupMessage()
'''),
    (S, '''	// ErrSessionClosed is returned by the Server's Start after a call to Close.
	ErrSessionClosed = errors.New("session: Session closed")
)
''', '''	// ErrSessionClosed is returned by the Session's Start after a call to Close.
	ErrSessionClosed = errors.New("session: Session closed")

	// negotiating limits the number of concurrent negotiations
	negotiating = make(chan struct{}, 8)
)
'''))

bug('c07-grow-declared', 'C07', 'a message whose declared length is far larger than what is ever sent',
    'the memory for a message is reserved when its header arrives: a few bytes of a client allocate up to 2 GiB', 'server',
    ('pkg/pg/startup_frame.go', '''	// Read the rest of the frame
	_, err = io.CopyN(buffer, r, int64(frameLength-4))

	if err != nil {''', '''	// Read the rest of the frame
	buffer.Grow(int(frameLength) - 4)

	if _, err = io.CopyN(buffer, r, int64(frameLength-4)); err != nil {'''))

bug('c07-unterminated-fields', 'C07', 'an ErrorResponse (or a client message of type E) without the terminator of its field list',
    'the field list is read up to a terminator that need not be there: the proxy panics', 'server',
    ('pkg/pg/error_response_message.go', '''	for {
		fieldType, err := messageData.ReadByte()

		if err != nil {
			return nil, err
		}

		// Terminator — end of message
		if fieldType == 0 {
			break
		}
''', '''	for messageData[0] != 0 {
		fieldType, err := messageData.ReadByte()

		if err != nil {
			return nil, err
		}
'''))

bug('c08-fold-case', 'C08', 'a client that names the configured database in another case',
    'the database name is compared without regard to case although PostgreSQL distinguishes them', 'server',
    (S, '''	if dbName := startupMessage.GetParameter("database"); dbName != allowedDB {''',
        '''	if dbName := startupMessage.GetParameter("database"); !strings.EqualFold(dbName, allowedDB) {'''),
    (S, '''	"net"
	"sync"
''', '''	"net"
	"strings"
	"sync"
'''))

bug('c08-protocol-minor', 'C08', 'a startup message with a protocol version other than 3.0, e.g. 3.1 or a negative number',
    'only the major version is checked', 'server',
    (S, '''	if startupMessage.ProtocolVersion != pg.DefaultProtocolVersion {''',
        '''	if startupMessage.ProtocolVersion>>16 != pg.DefaultProtocolVersion>>16 {'''))

bug('c09-buffered-startup', 'C09', 'a client that sends the startup message (or its first query) without waiting for the answer',
    'the startup message is read through a buffered reader: pipelined bytes are lost', 'server',
    ('pkg/pg/conn.go', '''	frame, err := ReadStartupFrame(h.conn)
''', '''	frame, err := ReadStartupFrame(bufio.NewReader(h.conn))
'''),
    ('pkg/pg/conn.go', '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
'''))

bug('c10-dial-retry', 'C10', 'a database that refuses connections while a client connects',
    'the database is dialled again and again instead of failing the session that needs it', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	if err != nil {
		return err
	}
''', '''	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	// The database might be restarting, so try again unless session is closed
	for err != nil && !s.closed.HasFired() {
		time.Sleep(100 * time.Millisecond)

		conn, err = dialer.Dial("tcp", net.JoinHostPort(host, port))
	}

	if err != nil {
		return err
	}
'''),
    (S, '''	"net"
	"sync"
''', '''	"net"
	"sync"
	"time"
'''), (S, '''// Convert to pg.NewConn
''', '''// Convert it to pg.Conn
'''))

bug('c11-wg-add-late', 'C11', 'Close is called between the start of a goroutine and its first instruction',
    'goroutines register with the wait group only when they run: Close can return while one is still about to serve a client', 'server',
    (V, """	srv.wg.Add(1)

	go func() {
		defer srv.wg.Done()
		f()
	}()
""", """	go func() {
		srv.wg.Add(1)
		defer srv.wg.Done()

		f()
	}()
"""))

bug('c12-start-check-then-fire', 'C12', 'two Start calls at the same moment',
    'whether the server has been started is checked before, not while, it is marked as started: two concurrent Start calls may both serve', 'server',
    (V, """	if !srv.start.Fire() {
		return ErrServerAlreadyStarted
	}
""", """	if srv.start.HasFired() {
		return ErrServerAlreadyStarted
	}
"""), (V, """	// For debugging purposes
	defer log.Debug("server: Start() loop finished")
""", """	srv.start.Fire()

	// For debugging purposes
	defer log.Debug("server: Start() loop finished")
"""))

bug('c13-close-before-bind', 'C13', 'a configuration whose address cannot be bound',
    'the old listener is closed before the new address is bound: after a failed bind nobody serves clients', 'server',
    (V, """			// Initialize a new listener
			ln, err := net.Listen("tcp", config.Listen)
""", """			// Release the old address first: the new one could be the same port on another interface
			srv.closeListener()

			// Initialize a new listener
			ln, err := net.Listen("tcp", config.Listen)
"""), (V, """	if srv.listener != nil {
		log.Debug("server: closing the old listener")

		err := srv.listener.Close()

		if err != nil {
			log.Errorf("server: error while closing old listener: %v", err)
		}
	}

	srv.listener = ln

	return nil
}
""", """	srv.closeListenerLocked()

	srv.listener = ln

	return nil
}

// closeListener closes the current listener if there is one.
func (srv *Server) closeListener() {
	srv.mu.Lock()
	defer srv.mu.Unlock()

	srv.closeListenerLocked()
}

// closeListenerLocked closes the current listener without locking the mutex.
func (srv *Server) closeListenerLocked() {
	if srv.listener == nil {
		return
	}

	log.Debug("server: closing the old listener")

	err := srv.listener.Close()

	if err != nil {
		log.Errorf("server: error while closing old listener: %v", err)
	}

	srv.listener = nil
}
"""))

bug('c13-compare-with-current', 'C13', 'an update that goes back to the address in use arrives before the server has acted on the one before it',
    'the server ends up on the address of the earlier update', 'server',
    (V, """		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
""", """		// Nothing to do if we are listening on this address already
		srv.mu.Lock()
		defer srv.mu.Unlock()

		return srv.listener == nil || srv.listenAddr != newConfig.Listen
"""), (V, """			err = srv.changeListener(ln)

			if err != nil {
				return err
			}

			// Serve the new""", """			err = srv.changeListener(ln)

			if err != nil {
				return err
			}

			srv.mu.Lock()
			srv.listenAddr = config.Listen
			srv.mu.Unlock()

			// Serve the new"""), (V, """	// List of currently active database sessions
""", """	// Address from the config that the listener is for
	listenAddr string

	// List of currently active database sessions
"""))

bug('c14-drop-on-listener-change', 'C14', 'a change of the listen address while a session is established',
    'the accept loop closes the connections it accepted when its listener is replaced', 'server',
    (V, '\tlog.Info("server: ready to accept client connections")', '\tlog.Infof("server: ready to accept client connections on %s", ln.Addr())'),
    (V, """			// ...otherwise stop the loop (most likely listener is closed)
			return err
		}

		// Serve client in a new goroutine
		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
			conn.Close()
			return ErrServerClosed
		}
""", """			// ...otherwise stop the loop (most likely listener is closed)
			return err
		}

		// Serve client in a new goroutine
		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
			conn.Close()
			return ErrServerClosed
		}

		// Do not leave anything behind
		defer conn.Close()
"""), (V, """		// NB: we use l not srv.listener here because later can be nil
		conn, err := ln.Accept()
""", """		// NB: we use ln not srv.listener here because later can be nil
		conn, err := ln.Accept()
"""))

bug('c15-params-not-cached', 'C15', 'a configuration change between the check of the database name and the dial',
    'the configuration is parsed again for every parameter: name, host and port of one session can come from two configurations', 'server',
    (S, """	if s.dbConnectionParams == nil {
		// This""", """	if s.dbConnectionParams == nil || name != "port" {
		// This"""))

bug('c15-early-snapshot', 'C15', 'a client that connects after a configuration change, on a server that read the configuration before',
    'the parsed connection parameters are cached for all sessions and refreshed only when the listen address changes', 'server',
    (S, """		// Parse database URI
		s.dbConnectionParams, err = pg.ParseDatabaseURI(config.DatabaseURL)
""", """		// Parse database URI
		s.dbConnectionParams, err = parseDatabaseURI(config)
"""), (S, """// getDBConnnectionParam returns connection""", """// parsedURIs caches connection parameters by the listen address that they belong to.
var parsedURIs sync.Map

// parseDatabaseURI returns connection parameters of the given config.
func parseDatabaseURI(config *Config) (pg.ConnectionParams, error) {
	if params, ok := parsedURIs.Load(config.Listen); ok {
		return params.(pg.ConnectionParams), nil
	}

	params, err := pg.ParseDatabaseURI(config.DatabaseURL)

	if err == nil {
		parsedURIs.Store(config.Listen, params)
	}

	return params, err
}

// getDBConnnectionParam returns connection"""))

bug('c16-timeout-only', 'C16', 'a temporary accept error that is not a timeout, such as an aborted connection or descriptor exhaustion',
    'only timeouts are taken for temporary errors: the accept loop ends after an aborted connection', 'server',
    (V, """ne.Temporary() {""", """ne.Timeout() {"""))

bug('c16-error-budget', 'C16', 'more temporary accept errors in total than a fixed budget, however far apart',
    'the counter of temporary errors is never reset after a successful accept: the tenth error stops the service', 'server',
    (V, """			if errors.As(err, &ne) && ne.Temporary() {
				continue
			}
""", """			if errors.As(err, &ne) && ne.Temporary() && failures < 10 {
				failures++
				continue
			}
"""), (V, """	// For debugging purposes
	defer log.Debug("server: Serve() loop finished")
""", """	// Number of failed attempts
	failures := 0

	// For debugging purposes
	defer log.Debug("server: Serve() loop finished")
"""))

bug('c17-initial-outside-lock', 'C17', 'an update that arrives while a new subscriber is about to receive the current configuration',
    'the subscriber receives the newer configuration first and the older one after it', 'server', (D, '''	p.mu.Lock()
	defer p.mu.Unlock()

	// Close could have been called while we were waiting for the lock
	if p.closed.HasFired() {
		return ErrConfigDistributorClosed
	}
''', '''	p.mu.Lock()

	// Close could have been called while we were waiting for the lock
	if p.closed.HasFired() {
		p.mu.Unlock()
		return ErrConfigDistributorClosed
	}
'''), (D, '''	// Send current config immediately
	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
		p.sendConfig(ch, subscription, p.lastConfig)
	}
''', '''	lastConfig := p.lastConfig

	p.mu.Unlock()

	// Send current config immediately
	if lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, lastConfig) {
		p.sendConfig(ch, subscription, lastConfig)
	}
'''))
bug('c18-last-after-notify', 'C18', 'Get while an update is being delivered to several subscribers, one of them slow',
    'Get returns an older configuration after another subscriber has received the newer one', 'server', (D, '''			// Update lastConfig and notify subscribers
			p.mu.Lock()
			{
				oldConfig := p.lastConfig
				p.lastConfig = newConfig

				p.notifySubscribersLocked(oldConfig, newConfig)
			}
			p.mu.Unlock()
''', '''			// Notify subscribers; readers need not wait for that
			p.mu.RLock()
			{
				p.notifySubscribersLocked(p.lastConfig, newConfig)
			}
			p.mu.RUnlock()

			// Update lastConfig
			p.mu.Lock()
			{
				p.lastConfig = newConfig
			}
			p.mu.Unlock()
'''))
bug('c18-cached-get', 'C18', 'a second update between the delivery of the first one to a waiting Get and the moment that Get stores it',
    'Get goes back to the first configuration, for good', 'server', (D, '''	var lastConfigSnapshot *Config

	p.mu.RLock()
	{
		lastConfigSnapshot = p.lastConfig
	}
	p.mu.RUnlock()

	// Shortcut: return cached config
	if lastConfigSnapshot != nil {
		return lastConfigSnapshot, nil
	}

	// Wait for the next config update from the source
	return p.waitForNextConfig()
''', '''	p.mu.RLock()
	lastConfigSnapshot := p.lastConfig
	p.mu.RUnlock()

	// Shortcut: return cached config
	if lastConfigSnapshot != nil {
		return lastConfigSnapshot, nil
	}

	// Wait for the next config update from the source
	config, err := p.waitForNextConfig()

	if err == nil {
		// Make it available right away
		p.mu.Lock()
		p.lastConfig = config
		p.mu.Unlock()
	}

	return config, err
'''))
bug('c19-close-needs-lock', 'C19', 'Close while an update is being sent to a subscriber that does not receive',
    'Close waits forever', 'server', (D, '''	if !p.closed.Fire() {
		return
	}

	p.mu.Lock()
	defer p.mu.Unlock()

	for ch := range p.subscriptions {
		p.unsubscribeLocked(ch)
	}
''', '''	p.mu.Lock()
	defer p.mu.Unlock()

	if !p.closed.Fire() {
		return
	}

	for ch := range p.subscriptions {
		p.unsubscribeLocked(ch)
	}
'''))
bug('c20-close-before-flag', 'C20', 'someone looks at HasFired as soon as Done is closed, while Fire is still running',
    'Done is closed and HasFired says no', 'server', (E, '''		atomic.StoreInt32(&e.fired, 1)
		close(e.doneChan)
		ret = true
''', '''		ret = true
		close(e.doneChan)
		atomic.StoreInt32(&e.fired, 1)
'''))
bug('c20-cas', 'C20', 'two concurrent Fire calls',
    'the second Fire returns before Done is closed', 'server', (E, '''	ret := false

	e.fireOnce.Do(func() {
		atomic.StoreInt32(&e.fired, 1)
		close(e.doneChan)
		ret = true
	})

	return ret
''', '''	// The first one wins
	if !atomic.CompareAndSwapInt32(&e.fired, 0, 1) {
		return false
	}

	close(e.doneChan)

	return true
'''), (E, '''import (
	"sync"
	"sync/atomic"
)
''', '''import (
	"sync/atomic"
)
'''), (E, '''	fireOnce sync.Once
''', ''))
CW='pkg/cli/watch_server_config.go'; CR='pkg/cli/read_server_config.go'; CL='pkg/cli/cli.go'
bug('c21-drop-when-busy', 'C21', 'two edits of the file in quick succession, the second one before the server has taken the first',
    'the newest content is never applied', 'cli', (CW, '''		configChan <- updatedConfig
''', '''		// Never block the watcher
		select {
		case configChan <- updatedConfig:
		default:
			log.Warn("server is busy, skipping config update")
		}
'''))
bug('c22-keep-previous-values', 'C22', 'a file that names a database but no listen address is saved while the proxy is running',
    'the unusable file is applied, completed from the previous configuration', 'cli', (CR, '''	config := &server.Config{}
	_, err = toml.DecodeFile(absPath, config)
''', '''	config := &server.Config{}

	if defaults != nil {
		*config = *defaults
	}

	_, err = toml.DecodeFile(absPath, config)
'''), (CR, '''// readServerConfig unmarshals server config at the given file path.
func readServerConfig(path string) (*server.Config, error) {
''', '''// readServerConfig unmarshals server config at the given file path.
func readServerConfig(path string) (*server.Config, error) {
	return readServerConfigWithDefaults(path, nil)
}

// readServerConfigWithDefaults does the same, using the given config for the settings that are not in the file.
func readServerConfigWithDefaults(path string, defaults *server.Config) (*server.Config, error) {
'''), (CW, '''		updatedConfig, err := readServerConfig(configPath)
''', '''		updatedConfig, err := readServerConfigWithDefaults(configPath, lastConfig)
'''), (CW, '''		configChan <- updatedConfig
''', '''		lastConfig = updatedConfig
		configChan <- updatedConfig
'''), (CW, '''	watcher := newFileWatcher(configPath)
''', '''	// Settings that are removed from the file keep their values
	lastConfig, _ := readServerConfig(configPath)

	watcher := newFileWatcher(configPath)
'''))
SF='pkg/pg/standard_frame.go'; UF='pkg/pg/startup_frame.go'
bug('c23-eof-in-body', 'C23', 'a stream that ends inside the body of a startup message',
    'the shortened message is returned without an error', 'pg', (UF, '''	// Read the rest of the frame
	_, err = io.CopyN(buffer, r, int64(frameLength-4))

	if err != nil {
		return nil, err
	}
''', '''	// Read the rest of the frame
	_, err = buffer.ReadFrom(io.LimitReader(r, int64(frameLength-4)))

	if err != nil {
		return nil, err
	}
'''))
bug('c24-two-writes', 'C24', 'several goroutines that send on one connection at the same time',
    'the header of one message is followed by another message', 'pg', ('pkg/pg/conn.go', '''	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
}

// SendByte''', '''	b := msg.Frame().Bytes()

	// Send big messages in pieces
	for len(b) > maxWrite {
		n, err := h.conn.Write(b[:maxWrite])

		if err != nil {
			return err
		}

		b = b[n:]
	}

	_, err := h.conn.Write(b)
	return err
}

// SendByte'''), ('pkg/pg/conn.go', '''// Conn is a wrapper''', '''// maxWrite limits the size of a single write.
const maxWrite = 4096

// Conn is a wrapper'''))
bug('c24-nonzero-is-success', 'C24', 'a connection that fails after it accepted a part of a message',
    'success is reported for a message that was sent in part', 'pg', ('pkg/pg/conn.go', '''	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
}

// SendByte''', '''	// NB: the peer is able to tell that the message is incomplete
	if n, err := h.conn.Write(msg.Frame().Bytes()); n == 0 {
		return err
	}

	return nil
}

// SendByte'''))
I='pkg/pgmeta/inspector.go'
bug('c25-signed-oid', 'C25', 'a table whose OID is above 2^31',
    'the tables of a healthy database cannot be listed', 'pgmeta', (I, '''		var tableOid oid.Oid

		var table Table

		err := rows.Scan(&tableOid, &table.Name, &table.Schema)
''', '''		var tableOid int32

		var table Table

		err := rows.Scan(&tableOid, &table.Name, &table.Schema)
'''), (I, '''		mapping[tableOid] = table
''', '''		mapping[oid.Oid(tableOid)] = table
'''))
bug('c25-rows-end', 'C25', 'the server reports an error or the connection fails in the middle of the rows',
    'a partial list of tables is returned without an error', 'pgmeta', (I, '''		err := rows.Scan(&tableOid, &table.Name, &table.Schema)

		if err != nil {
			return nil, err
		}
''', '''		if rows.Scan(&tableOid, &table.Name, &table.Schema) != nil {
			continue
		}
'''), (I, '''	if err := rows.Err(); err != nil {
		return nil, err
	}

	return mapping, nil
''', '''	if err := rows.Err(); err != nil && len(mapping) == 0 {
		return nil, err
	}

	return mapping, nil
'''))
bug('c17-send-in-background', 'C17', 'two updates in a row while a subscriber is busy',
    'a busy subscriber receives updates out of order', 'server', (D, """				p.notifySubscribersLocked(oldConfig, newConfig)
""", """				// Do not let a slow subscriber hold up the others
				for _, send := range p.notifySubscribersLocked(oldConfig, newConfig) {
					go send()
				}
"""), (D, """func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
	for ch, subscription := range p.subscriptions {
		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
			p.sendConfig(ch, subscription, newConfig)
		}
	}
}
""", """// It returns functions that send to those that are busy.
func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) (busy []func()) {
	for ch, subscription := range p.subscriptions {
		if !p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
			continue
		}

		select {
		case ch <- newConfig:
		default:
			ch, subscription := ch, subscription
			busy = append(busy, func() { p.sendConfig(ch, subscription, newConfig) })
		}
	}

	return busy
}
"""))
bug('c17-same-listen-check', 'C17', 'a subscriber whose checks do not want every configuration, and compare for more than equality',
    'checks are given the configuration the subscriber received last instead of the previous one', 'server', (D, """				oldConfig := p.lastConfig
				p.lastConfig = newConfig

				p.notifySubscribersLocked(oldConfig, newConfig)
""", """				p.lastConfig = newConfig

				p.notifySubscribersLocked(newConfig)
"""), (D, """func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
	for ch, subscription := range p.subscriptions {
		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
			p.sendConfig(ch, subscription, newConfig)
		}
""", """func (p *ConfigDistributor) notifySubscribersLocked(newConfig *Config) {
	for ch, subscription := range p.subscriptions {
		if p.shouldSendUpdatedConfig(subscription.checks, subscription.last, newConfig) {
			p.sendConfig(ch, subscription, newConfig)
			subscription.last = newConfig
		}
"""), (D, """	// Send current config immediately
	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
		p.sendConfig(ch, subscription, p.lastConfig)
	}
""", """	// Send current config immediately
	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
		p.sendConfig(ch, subscription, p.lastConfig)
		subscription.last = p.lastConfig
	}
"""), (D, """	// Fired when subscription is cancelled
	cancelled *Event
""", """	// Fired when subscription is cancelled
	cancelled *Event

	// Config the subscriber knows about
	last *Config
"""))
bug('c21-debounce', 'C21', 'two valid edits of the file within a tenth of a second',
    'the second edit is ignored', 'cli', (CW, """		configChan <- updatedConfig
	}
""", """		configChan <- updatedConfig
	})
"""), (CW, """	watcher.OnWrite = func() {
""", """	watcher.OnWrite = debounce(func() {
"""), (CW, """// watchServerConfig watches""", """// debounce calls the given function at most once in a while: editors tend to produce several events for one save.
func debounce(f func()) func() {
	var last time.Time

	return func() {
		if time.Since(last) < 100*time.Millisecond {
			return
		}

		f()

		last = time.Now()
	}
}

// watchServerConfig watches"""), (CW, """import (
	log""", """import (
	"time"

	log"""))
bug('c22-start-without-listen', 'C22', 'the program is started with a file that lacks the listen address',
    'it starts and listens on an address nobody configured', 'cli', (CR, """	if config.Listen == "" {
		return nil, errListenNotSet
	}

	return config, nil
""", """	if config.Listen == "" {
		return config, errListenNotSet
	}

	return config, nil
"""), (CL, """	config, err := readServerConfig(configPath)

	if err != nil {
		return nil, err
	}
""", """	config, err := readServerConfig(configPath)

	// An address to listen on could be added later
	if err != nil && err != errListenNotSet {
		return nil, err
	}
"""))
bug('c23-single-read', 'C23', 'a message whose body arrives in several segments',
    'a short read is taken for the whole body', 'pg', (SF, """	// Read the rest of the frame
	_, err = io.CopyN(buffer, r, int64(frameLength-4))
""", """	// Read the rest of the frame
	err = readBody(buffer, r, int(frameLength-4))
"""), (SF, """// ReadStandardFrame reads a standard frame""", """// readBody reads the given number of bytes into the buffer.
func readBody(buffer *bytes.Buffer, r io.Reader, length int) error {
	// A small body is read at once
	if length > 0 && length <= 512 {
		body := make([]byte, length)
		_, err := r.Read(body)

		buffer.Write(body)

		return err
	}

	_, err := io.CopyN(buffer, r, int64(length))

	return err
}

// ReadStandardFrame reads a standard frame"""))
bug('c24-retry-timeout', 'C24', 'a write that times out after a part of the message',
    'the message is sent twice, the first time cut short, and success is reported', 'pg', ('pkg/pg/conn.go', """	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
}

// SendByte""", """	bytes := msg.Frame().Bytes()

	_, err := h.conn.Write(bytes)

	// Try again if it was a temporary problem
	var ne net.Error
	if errors.As(err, &ne) && ne.Temporary() {
		_, err = h.conn.Write(bytes)
	}

	return err
}

// SendByte"""), ('pkg/pg/conn.go', """import (
	"bytes"
""", """import (
	"bytes"
	"errors"
"""))
bug('c25-like-information-schema', 'C25', 'a schema whose name starts with information_schema',
    'its tables are missing', 'pgmeta', (I, "n.nspname NOT IN ('information_schema')", "n.nspname NOT LIKE 'information_schema%'"))

bug('c04-write-deadline', 'C04', 'a party that does not read for longer than twenty seconds while its peer sends more than fits into the socket buffers',
    'a peer that is slow to read (a paused cursor, a long computation) loses its session: writing to it gives up', 'server',
    ('pkg/pg/conn.go', '''	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
}

// SendByte''', '''	// Do not get stuck on a dead peer
	err := h.conn.SetWriteDeadline(time.Now().Add(sendTimeout))

	if err != nil {
		return err
	}

	_, err = h.conn.Write(msg.Frame().Bytes())
	return err
}

// SendByte'''),
    ('pkg/pg/conn.go', '''import (
	"bytes"
	"net"
)
''', '''import (
	"bytes"
	"net"
	"time"
)

// sendTimeout limits the time we wait for a peer to take a message.
const sendTimeout = 20 * time.Second
'''))

bug('c14-drain-old-sessions', 'C14', 'a change of the listen address more than ten seconds before the session ends',
    'sessions that were accepted by the previous listener are closed ten seconds after the listener was replaced', 'server',
    (V, '''		log.Debug("server: closing the old listener")
''', '''		log.Debug("server: closing the old listener")

		// Give clients of the old listener some time to move to the new one
		old := make([]*Session, 0, len(srv.sessions))

		for s := range srv.sessions {
			old = append(old, s)
		}

		time.AfterFunc(drainTimeout, func() {
			for _, s := range old {
				s.Close()
			}
		})
'''),
    (V, '''		err := srv.listener.Close()

		if err != nil {
			log.Errorf("server: error while closing old listener: %v", err)
		}
''', '''		if err := srv.listener.Close(); err != nil {
			log.Errorf("server: error while closing old listener: %v", err)
		}
'''),
    (V, '''// changeListener sets''', '''// drainTimeout is how long sessions of a replaced listener live.
const drainTimeout = 10 * time.Second

// changeListener sets'''))

bug('c18-get-timeout', 'C18', 'no configuration arrives in the first ten seconds after Get was called',
    'Get gives up instead of waiting, so that whoever asked early gets an error although the store is open', 'server',
    (D, '\tlog.Debug("config_distributor: starting monitorConfig() loop")', '\tlog.Debug("config_distributor: monitorConfig() loop started")'),
    (D, '''	// Wait for the config or Cancel signal
	select {
	case config := <-nextConfigChan:
		return config, nil
''', '''	// Wait for the config, Cancel signal or timeout
	timeout := time.NewTimer(firstConfigTimeout)
	defer timeout.Stop()

	select {
	case config := <-nextConfigChan:
		return config, nil

	case <-timeout.C:
		return nil, errors.New("config_distributor: no configuration")
'''),
    (D, '''import (
	"errors"
	"sync"
''', '''import (
	"errors"
	"sync"
	"time"
'''),
    (D, '''var _ ConfigStore = &ConfigDistributor{}
''', '''// firstConfigTimeout limits the time we wait for the source.
const firstConfigTimeout = 10 * time.Second

var _ ConfigStore = &ConfigDistributor{}
'''))

bug('c21-config-size', 'C21', 'a configuration file of more than 4096 bytes whose settings come last',
    'only the first 4 KiB of the configuration file are read', 'cli',
    ('pkg/cli/read_server_config.go', '''	config := &server.Config{}
	_, err = toml.DecodeFile(absPath, config)
''', '''	config := &server.Config{}

	file, err := os.Open(absPath)

	if err != nil {
		return nil, err
	}

	defer file.Close()

	_, err = toml.DecodeReader(io.LimitReader(file, maxConfigSize), config)
'''),
    ('pkg/cli/read_server_config.go', '''	"errors"
	"path/filepath"
''', '''	"errors"
	"io"
	"os"
	"path/filepath"
'''),
    ('pkg/cli/read_server_config.go', '''// readServerConfig unmarshals''', '''// maxConfigSize protects us from reading something that is not a config.
const maxConfigSize = 4096

// readServerConfig unmarshals'''))

bug('c25-limit', 'C25', 'a database with more than a thousand tables',
    'only a thousand tables are listed, without an error', 'pgmeta',
    ('pkg/pgmeta/inspector.go', '\tmapping := make(map[oid.Oid]Table)\n', '\tmapping := make(map[oid.Oid]Table, 1000)\n'),
    (I, "AND c.relkind IN ('r', 'p', 'f', 'm', 'v');", "AND c.relkind IN ('r', 'p', 'f', 'm', 'v')\n       LIMIT 1000;"),
    (I, "// OIDTableMapping returns a list of all database tables and its respective OIDs.", "// OIDTableMapping returns a list of all database tables and its respective OIDs (a sane number of them)."))

bug('c25-dbname-trim', 'C25', 'a database whose name starts or ends with a blank',
    'DatabaseName returns another name than the one of the database, without an error', 'pgmeta',
    (I, '\terr := row.Scan(&name)\n\n\treturn name, err', '\terr := row.Scan(&name)\n\n\treturn strings.TrimSpace(name), err'),
    (I, '\t"fmt"\n', '\t"fmt"\n\t"strings"\n'))

bug('c13-fatal-bind', 'C13', 'an update names an address that cannot be bound',
    'the whole process exits, with all sessions', 'server',
    (V, 'log.Errorf("server: can\'t listen on', 'log.Fatalf("server: can\'t listen on'))

bug('c22-fatal-reload', 'C22', 'the file is edited into something unusable while the proxy runs',
    'the process exits and all sessions end', 'cli',
    ('pkg/cli/watch_server_config.go', 'log.Errorf("error loading', 'log.Fatalf("error loading'))

bug('c18-fill-empty-url', 'C18', 'an update with an empty database URL after one with another URL',
    'Get returns a configuration nobody published', 'server',
    (D, '\t\t\t\toldConfig := p.lastConfig\n', """				oldConfig := p.lastConfig.or(newConfig)
"""),
    (D, '// notifySubscribersLocked notifies', """// or returns the config, completing the next one: an empty URL means that it stays as it is.
func (c *Config) or(next *Config) *Config {
	if c != nil && next.DatabaseURL == "" {
		next.DatabaseURL = c.DatabaseURL
	}

	return c
}

// notifySubscribersLocked notifies"""))

bug('c01-startup-utf8', 'C01', 'a startup parameter that is not UTF-8 (a LATIN1 client)',
    'the startup message that reaches the database has other bytes than the client sent', 'server',
    ('pkg/pg/startup_message.go', '&StartupMessageParameter{key, value})', '&StartupMessageParameter{key, strings.ToValidUTF8(value, "?")})'))

bug('c21-watch-optional', 'C21', 'the configuration file cannot be watched when the program starts (descriptors or inotify instances are exhausted)',
    'the proxy starts nevertheless and never notices an edit', 'cli',
    ('pkg/cli/cli.go', """	err := watchServerConfig(configPath, configChan)

	if err != nil {
		return nil, err
	}
""", """	if err := watchServerConfig(configPath, configChan); err != nil {
		log.Warnf("config changes will not be noticed: %v", err)
	}
"""))

bug('c28-client-backlog', 'C28', 'a client that does not read while the database sends more than a thousand messages',
    'messages that do not fit into the queue to the client go to a backlog that has no limit, so that the database never waits', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''	// FIXME: temporary just proxy everything from the database to the client
	for {
		dbMsg, ok := <-s.dbIn

		if !ok {
			return nil
		}

		log.Infof("<- %s", dbMsg.Frame().Bytes())

		s.clientOut <- dbMsg
	}
''', '''	// Messages that don't fit into the queue yet
	var backlog []pg.Message

	// FIXME: temporary just proxy everything from the database to the client
	for {
		var (
			out  chan<- pg.Message
			next pg.Message
		)

		if len(backlog) > 0 {
			out, next = s.clientOut, backlog[0]
		}

		select {
		case out <- next:
			backlog = backlog[1:]

		case dbMsg, ok := <-s.dbIn:
			if !ok {
				for _, message := range backlog {
					s.clientOut <- message
				}

				return nil
			}

			log.Infof("<- %s (%d waiting)", dbMsg.Frame().Bytes(), len(backlog))

			backlog = append(backlog, dbMsg)
		}
	}
'''),
    (S, '''	clientOut chan pg.Message // Gevulot -> client''', '''	clientOut chan pg.Message // Gevulot -> client (what does not fit waits in startDBProcessing)'''))

bug('c28-growing-queue', 'C28', 'a database that does not read while the client sends more than a thousand messages',
    'the queue from the client is replaced by one of twice the size whenever it is full', 'server',
    (S, '\t\tlog.Info("session: completed")', '\t\tlog.Info("session: completed without errors")'),
    (S, '''	// FIXME: temporary just proxy everything from the client to the database
	for {
		clientMsg, ok := <-s.clientIn

		if !ok {
			return nil
		}

		log.Infof("-> %s", clientMsg.Frame().Bytes())

		s.dbOut <- clientMsg
	}
''', '''	// Decouple reading from writing
	queue := newMessageQueue(cap(s.dbOut))

	go func() {
		defer queue.close()

		// FIXME: temporary just proxy everything from the client to the database
		for clientMsg := range s.clientIn {
			log.Infof("-> %s", clientMsg.Frame().Bytes())

			queue.put(clientMsg)
		}
	}()

	for {
		clientMsg, ok := queue.get()

		if !ok {
			return nil
		}

		s.dbOut <- clientMsg
	}
'''),
    (S, '''// waitForConfig returns''', '''// messageQueue is a ring of messages.
type messageQueue struct {
	mu       sync.Mutex
	notEmpty *sync.Cond
	ring     []pg.Message
	head     int
	length   int
	closed   bool
}

func newMessageQueue(capacity int) *messageQueue {
	q := &messageQueue{ring: make([]pg.Message, capacity)}
	q.notEmpty = sync.NewCond(&q.mu)

	return q
}

// put appends a message to the queue.
func (q *messageQueue) put(message pg.Message) {
	q.mu.Lock()
	defer q.mu.Unlock()

	// Make more room
	if q.length == len(q.ring) {
		ring := make([]pg.Message, 2*len(q.ring))
		n := copy(ring, q.ring[q.head:])
		copy(ring[n:], q.ring[:q.head])
		q.ring, q.head = ring, 0
	}

	q.ring[(q.head+q.length)%len(q.ring)] = message
	q.length++
	q.notEmpty.Signal()
}

// get removes the first message, waiting until there is one; false means that the queue is closed and empty.
func (q *messageQueue) get() (pg.Message, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()

	for q.length == 0 && !q.closed {
		q.notEmpty.Wait()
	}

	if q.length == 0 {
		return nil, false
	}

	message := q.ring[q.head]
	q.ring[q.head] = nil
	q.head = (q.head + 1) % len(q.ring)
	q.length--

	return message, true
}

func (q *messageQueue) close() {
	q.mu.Lock()
	defer q.mu.Unlock()

	q.closed = true
	q.notEmpty.Signal()
}

// waitForConfig returns'''))

LOGC = (S, '		log.Info("session: completed")', '		log.Info("session: completed without errors")')
ST = (S, '	"sync"\n', '	"sync"\n	"time"\n')

bug('c03-fatal-closes', 'C03', 'a database that sends messages and then a FATAL error while the client is busy or slow',
    'the session is closed as soon as the database reports a fatal error, together with what still waits for the client', 'server', LOGC,
    (S, '''		s.clientOut <- dbMsg
''', '''		s.clientOut <- dbMsg

		// PostgreSQL closes the connection after a fatal error
		if e, ok := dbMsg.(*pg.ErrorResponseMessage); ok && isFatal(e) {
			return s.Close()
		}
'''),
    (S, '''// waitForConfig returns''', '''// isFatal returns true when the error ends the connection.
func isFatal(e *pg.ErrorResponseMessage) bool {
	for _, field := range e.Fields {
		if field.Type == pg.MessageFieldSeverityLocalized {
			return field.Value == "FATAL" || field.Value == "PANIC"
		}
	}

	return false
}

// waitForConfig returns'''))

bug('c03-linger', 'C03', 'a database that hangs up right after its last messages',
    'the connection of the client is reset instead of closed when the database hangs up, so that data in flight is lost', 'server', LOGC,
    (S, '''		if !ok {
			s.clientConn.Close()
''', '''		if !ok {
			// Don't leave connections in TIME_WAIT
			if tcp, ok := s.clientConn.Unwrap().(*net.TCPConn); ok {
				_ = tcp.SetLinger(0)
			}

			s.clientConn.Close()
'''))

bug('c02-notice-shed', 'C02', 'a notice among many messages for a client that is slow to read',
    'notices are dropped while the queue to the client is more than half full', 'server', LOGC,
    (S, '''		log.Infof("<- %s", dbMsg.Frame().Bytes())
''', '''		log.Infof("<- %s", dbMsg.Frame().Bytes())

		// Nobody needs notices when there are more important things to deliver
		if _, ok := dbMsg.(*pg.NoticeResponseMessage); ok && len(s.clientOut) > cap(s.clientOut)/2 {
			continue
		}
'''))

bug('c02-repeated-status', 'C02', 'a parameter that the database reports twice with the same value',
    'a parameter status that repeats the last one of its name is not passed on', 'server', LOGC,
    (S, '''	// FIXME: temporary just proxy everything from the database to the client
	for {
		dbMsg, ok := <-s.dbIn
''', '''	// Last reported run-time parameters
	statuses := make(map[string]string)

	// FIXME: temporary just proxy everything from the database to the client
	for {
		dbMsg, ok := <-s.dbIn
'''),
    (S, '''		log.Infof("<- %s", dbMsg.Frame().Bytes())
''', '''		log.Infof("<- %s", dbMsg.Frame().Bytes())

		if status, ok := dbMsg.(*pg.ParameterStatusMessage); ok {
			// Client knows it already
			if value, known := statuses[status.Name]; known && value == status.Value {
				continue
			}

			statuses[status.Name] = status.Value
		}
'''))

bug('c06-dial-lock', 'C06', 'a client that arrives while another one is being connected to a database that does not answer',
    'sessions dial the database one after the other', 'server', LOGC,
    (S, '''	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
''', '''	conn, err := dialDatabase(&dialer, net.JoinHostPort(host, port))
'''),
    (S, '''// setDBConn sets''', '''// dialMu is held while we are dialing.
var dialMu sync.Mutex

// dialDatabase connects to the address without overwhelming the database with connection requests.
func dialDatabase(dialer *net.Dialer, address string) (net.Conn, error) {
	dialMu.Lock()
	defer dialMu.Unlock()

	return dialer.Dial("tcp", address)
}

// setDBConn sets'''))

bug('c10-slot-leak', 'C10', 'a few dozen failed connections to the database, one after the other or not',
    'a failed dial never returns its slot: after 32 of them nobody is connected to the database any more', 'server', LOGC,
    (S, '''	dialer := net.Dialer{Cancel: s.closed.Done()}
	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	if err != nil {
		return err
	}
''', '''	dialer := net.Dialer{Cancel: s.closed.Done()}

	// Limit the number of concurrent connection attempts
	select {
	case dialSlots <- struct{}{}:
	case <-s.closed.Done():
		return ErrSessionClosed
	}

	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	if err != nil {
		return err
	}

	<-dialSlots
'''),
    (S, '''// NewSession init''', '''// dialSlots limits the number of concurrent connection attempts.
var dialSlots = make(chan struct{}, 32)

// NewSession init'''))

bug('c10-breaker', 'C10', 'a client that arrives less than two seconds after a failed dial, when the database is back',
    'for two seconds after a failed dial clients are refused without trying', 'server', LOGC, ST,
    (S, '''	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	if err != nil {
		return err
	}
''', '''
	// Give the database some time to recover
	dialFailure.Lock()
	recovering := time.Since(dialFailure.at) < 2*time.Second
	dialFailure.Unlock()

	if recovering {
		return errors.New("session: database is not available")
	}

	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))

	if err != nil {
		dialFailure.Lock()
		dialFailure.at = time.Now()
		dialFailure.Unlock()

		return err
	}
'''),
    (S, '''// NewSession init''', '''// dialFailure is the time of the last failed connection attempt.
var dialFailure struct {
	sync.Mutex
	at time.Time
}

// NewSession init'''))

bug('c11-sessions-limit', 'C11', 'more than 256 clients at the moment Close is called',
    'sessions beyond the first 256 are served but not remembered, so that Close does not close them', 'server',
    (V, '''	srv.sessions[s] = struct{}{}

	return nil
''', '''	// Don't let the list grow forever
	if len(srv.sessions) < maxTrackedSessions {
		srv.sessions[s] = struct{}{}
	}

	return nil
'''),
    (V, '''// NewServer init''', '''// maxTrackedSessions is the maximum size of the session list.
const maxTrackedSessions = 256

// NewServer init'''))

bug('c11-listener-error', 'C11', 'a listener that reports an error when it is closed (someone else has closed it before)',
    'Close returns without closing the sessions if the listener cannot be closed', 'server',
    (V, '''			resultErr = srv.listener.Close()
			srv.listener = nil
''', '''			resultErr = srv.listener.Close()
			srv.listener = nil

			if resultErr != nil {
				srv.mu.Unlock()
				return resultErr
			}
'''),
    (V, '''	log.Info("server: closing")
''', '''	log.Info("server: closing the listener and the sessions")
'''))

bug('c13-same-port', 'C13', 'two listen addresses with the same port on different hosts, in a row',
    'the old listener is kept open when only the host of the address changes', 'server',
    (V, '''	if srv.listener != nil {
		log.Debug("server: closing the old listener")
''', '''	// A listener on the same port is replaced by the system
	if srv.listener != nil && !samePort(srv.listener.Addr(), ln.Addr()) {
		log.Debug("server: closing the old listener")
'''),
    (V, '''// do creates''', '''// samePort returns true when both addresses have the same port.
func samePort(a, b net.Addr) bool {
	tcpA, ok := a.(*net.TCPAddr)

	if !ok {
		return false
	}

	tcpB, ok := b.(*net.TCPAddr)

	return ok && tcpA.Port == tcpB.Port
}

// do creates'''))

bug('c17-coalesce', 'C17', 'several configurations published faster than the distributor takes them',
    'the distributor takes everything the source has and reports only the last configuration', 'server',
    (D, '''	log.Debug("config_distributor: starting monitorConfig() loop")
''', '''	log.Debug("config_distributor: monitorConfig() loop started")
'''),
    (D, '''			// Update lastConfig and notify subscribers
			p.mu.Lock()
''', '''			// Only the most recent config matters
			for n := len(p.source); n > 0; n-- {
				if next, ok := <-p.source; ok {
					newConfig = next
				}
			}

			// Update lastConfig and notify subscribers
			p.mu.Lock()
'''))

bug('c18-in-place', 'C18', 'a configuration that a caller of Get still holds when a new one is published',
    'the published configuration is overwritten in place by the next one (and the source gets its values changed)', 'server',
    (D, '''				oldConfig := p.lastConfig
				p.lastConfig = newConfig

''', '''				oldConfig := p.lastConfig

				if oldConfig == nil {
					p.lastConfig = newConfig
				} else {
					// Readers of the config see the new values immediately
					previous := *oldConfig
					*p.lastConfig = *newConfig
					oldConfig, newConfig = &previous, p.lastConfig
				}

'''))

bug('c21-mtime', 'C21', 'two writes of the file within one tick of the clock of the file system, the first of them incomplete',
    'a change is ignored if the modification time of the file is the one of the last change', 'cli',
    ('pkg/cli/watch_server_config.go', '''	watcher.OnWrite = func() {
		updatedConfig, err := readServerConfig(configPath)
''', '''	var lastModified time.Time

	watcher.OnWrite = func() {
		// Skip duplicate notifications
		if info, err := os.Stat(configPath); err == nil {
			if info.ModTime().Equal(lastModified) {
				return
			}

			lastModified = info.ModTime()
		}

		updatedConfig, err := readServerConfig(configPath)
'''),
    ('pkg/cli/watch_server_config.go', 'log.Errorf("error loading config file', 'log.Errorf("cannot load config file'),
    ('pkg/cli/watch_server_config.go', '''import (
''', '''import (
	"os"
	"time"

'''))

bug('c22-partial-decode', 'C22', 'a file whose listen address can be read and whose database URL has another type',
    'a configuration that could be decoded in part is used', 'cli',
    ('pkg/cli/read_server_config.go', '''	_, err = toml.DecodeFile(absPath, config)

	if err != nil {
		return nil, err
	}
''', '''	_, err = toml.DecodeFile(absPath, config)

	// Problems with optional settings are not fatal
	if err != nil && config.Listen == "" {
		return nil, err
	}
'''))

bug('c25-starting-up', 'C25', 'a database that answers the connection attempt with "the database system is starting up"',
    'connecting reports success although the database refused the connection', 'pgmeta',
    ('pkg/pgmeta/inspector.go', '''	if err != nil {
		db.Close()
		return nil, fmt''', '''	// The database might be still starting, it will be available later
	if pqErr, ok := err.(*pq.Error); ok && pqErr.Code == "57P03" {
		err = nil
	}

	if err != nil {
		db.Close()
		return nil, fmt'''),
    ('pkg/pgmeta/inspector.go', '''	_ "github.com/lib/pq"
''', '''	"github.com/lib/pq"
'''))

bug('c10-session-kept', 'C10', 'clients whose session fails, many of them over time',
    'sessions that end with an error are never forgotten: the memory of the proxy grows with every failed client', 'server', LOGC,
    (V, '''	// Automatically remove session from the list
	defer srv.removeSession(session)

''', ''),
    (V, '''	// Start the proxied DB session
	return session.Start()
''', '''	// Start the proxied DB session
	err = session.Start()

	// Remove finished session from the list
	if err == nil || errors.Is(err, io.EOF) {
		srv.removeSession(session)
	}

	return err
'''),
    (V, '	"errors"\n', '	"errors"\n	"io"\n'))

bug('c15-params-cache', 'C15', 'a change to another database of the same server, after a session has been made with the first one',
    'connection parameters are cached by server address, so that the database name of an old configuration stays in force', 'server', LOGC,
    (S, '''		s.dbConnectionParams, err = pg.ParseDatabaseURI(config.DatabaseURL)

		if err != nil {
			return "", err
		}
''', '''		params, err := pg.ParseDatabaseURI(config.DatabaseURL)

		if err != nil {
			return "", err
		}

		// Sessions of the same database share the parameters
		shared, _ := knownParams.LoadOrStore(net.JoinHostPort(params["host"], params["port"]), params)
		s.dbConnectionParams = shared.(pg.ConnectionParams)
'''),
    (S, '// NewSession initializes', '''// knownParams contains connection parameters of the databases.
var knownParams sync.Map

// NewSession initializes'''))

bug('c11-close-error', 'C11', 'Close while a session whose client is already disconnected still sends to a database that has shut down its side and does not read',
    'a session that cannot close the connection of the client leaves the one of the database open, and Close waits for it in vain', 'server', LOGC,
    (S, '''		log.Debugf("session: client connection is closed; err = %v", err)
''', '''		log.Debugf("session: client connection is closed; err = %v", err)

		if err != nil {
			return err
		}
'''))

bug('c11-accept-backoff', 'C11', 'Close less than ten seconds after a temporary accept error',
    'after an accept error the server sleeps for ten seconds, longer than Close waits for it', 'server',
    (V, '''			if errors.As(err, &ne) && ne.Temporary() {
				continue
''', '''			if errors.As(err, &ne) && ne.Temporary() {
				// Give the system some time to recover
				time.Sleep(acceptDelay)

				continue
'''),
    (V, '				log.Errorf("server: error while accepting client connection: %v", err)', '				log.Errorf("server: cannot accept client connection: %v", err)'),
    (V, '''// Server is a masking''', '''// How long to wait after a temporary error.
const acceptDelay = 10 * time.Second

// Server is a masking'''))

bug('c08-name-truncate', 'C08', 'database names of more than 63 bytes that differ at the end only',
    'only the first 63 bytes of database names are compared', 'server',
    (S, 'dbName := startupMessage.GetParameter("database"); dbName != allowedDB {', 'dbName := startupMessage.GetParameter("database"); identifier(dbName) != identifier(allowedDB) {'),
    (S, '// NewSession initializes', '''// identifier truncates long names the way PostgreSQL does.
func identifier(name string) string {
	if len(name) > 63 {
		name = name[:63]
	}

	return name
}

// NewSession initializes'''))

bug('c08-param-space', 'C08', 'a client with a parameter whose name is "database" with blanks around it, behind the real one',
    'blanks around parameter names are ignored, so that a harmless parameter hides the database', 'server',
    ('pkg/pg/startup_message.go', '''		if param.Name == name {
			value = param.Value
''', '''		if strings.TrimSpace(param.Name) == name {
			value = param.Value
'''))

bug('c23-limit', 'C23', 'a message of more than 64 megabytes',
    'messages above a limit far below the one of PostgreSQL are refused', 'pg',
    ('pkg/pg/standard_frame.go', '''	// The length includes itself, so it cannot be smaller than 4
	if frameLength < 4 {
''', '''	// The length includes itself, so it cannot be smaller than 4
	if frameLength < 4 || frameLength > maxFrameLength {
'''),
    ('pkg/pg/standard_frame.go', '''	// Get the message length
	frameLength, err := frameHeader.ReadInt32()

	if err != nil {
		return nil, err
	}
''', '''	// Get the message length
	frameLength, lengthErr := frameHeader.ReadInt32()

	if lengthErr != nil {
		return nil, lengthErr
	}
'''),
    ('pkg/pg/standard_frame.go', '// NewStandardFrame init', '''// maxFrameLength is the length of the largest message that we accept.
const maxFrameLength = 64 << 20

// NewStandardFrame init'''))

bug('c24-chunks', 'C24', 'several goroutines that send messages of more than 64 KB on one connection',
    'large messages are written in pieces, between which others can be sent', 'pg',
    ('pkg/pg/conn.go', '''	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
''', '''	data := msg.Frame().Bytes()

	// Write large messages in chunks
	for len(data) > 1<<16 {
		_, err := h.conn.Write(data[:1<<16])

		if err != nil {
			return err
		}

		data = data[1<<16:]
	}

	_, err := h.conn.Write(data)

	return err
'''))

bug('c13-bind-retry', 'C13', 'a configuration whose address cannot be bound, followed by another one',
    'the server insists on an address that cannot be bound for a minute and ignores later configurations meanwhile', 'server',
    (V, '''			ln, err := net.Listen("tcp", config.Listen)

			if err != nil {
				log.Errorf("server: can't listen on %s: %v", config.Listen, err)
				continue
			}
''', '''			ln, err := listenRetry(config.Listen)

			if err != nil {
				log.Errorf("server: can't listen on %s: %v", config.Listen, err)
				continue
			}
'''),
    (V, '// Serve sets the', '''// listenRetry listens on the address; the process that used it might be shutting down.
func listenRetry(address string) (net.Listener, error) {
	ln, err := net.Listen("tcp", address)

	for i := 0; err != nil && i < 600; i++ {
		time.Sleep(100 * time.Millisecond)

		ln, err = net.Listen("tcp", address)
	}

	return ln, err
}

// Serve sets the'''))

bug('c16-backoff', 'C16', 'a dozen temporary accept errors, however far apart',
    'the delay after a temporary accept error doubles every time and is never reset', 'server',
    (V, '''			if errors.As(err, &ne) && ne.Temporary() {
				continue
''', '''			if errors.As(err, &ne) && ne.Temporary() {
				// Do not spin
				time.Sleep(delay)
				delay *= 2

				continue
'''),
    (V, '				log.Errorf("server: error while accepting client connection: %v", err)', '				log.Errorf("server: cannot accept client connection: %v", err)'),
    (V, '''	for {
		// NB: we use l not''', '''	// Delay after the next temporary error
	delay := 5 * time.Millisecond

	for {
		// NB: we use l not'''))

bug('c18-waiter-stores', 'C18', 'an update between the delivery of a configuration to a waiting Get and the moment Get returns',
    'a Get that has waited writes its configuration back, over a newer one', 'server',
    (D, '''	case config := <-nextConfigChan:
		return config, nil
''', '''	case received := <-nextConfigChan:
		// Next calls do not have to wait
		p.mu.Lock()
		p.lastConfig = received
		p.mu.Unlock()

		return received, nil
'''))

bug('c05-keepalive-off', 'C05', 'the host of a client or of the database disappears without a word while the connection is idle',
    'keep-alive probes are off: the session of a client or database that is gone never ends', 'server',
    ('pkg/pg/conn.go', '''	return &Conn{conn: conn}
''', '''	// Connections of sessions have traffic of their own
	if tcpConn, ok := conn.(*net.TCPConn); ok {
		_ = tcpConn.SetNoDelay(true)
		_ = tcpConn.SetKeepAlive(false)
	}

	return &Conn{conn}
'''))

bug('c05-timeout-continue', 'C05', 'a client whose connection TCP has given up (ETIMEDOUT)',
    'an error of the connection that counts as a timeout is taken for a read deadline: the session goes on (in a busy loop) for ever', 'server',
    (S, '''		message, err := s.clientConn.RecvMessage()

		if err != nil {
			return err
		}

		s.clientIn <- message
	}
''', '''		msg, err := s.clientConn.RecvMessage()

		if err != nil {
			// The client takes its time
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				continue
			}

			return err
		}

		s.clientIn <- msg
	}
'''))

bug('c25-cache', 'C25', 'tables that are created, dropped or renamed between two calls',
    'the list of tables is the one of the first call', 'pgmeta',
    (I, '''	db *sql.DB
}
''', '''	db *sql.DB

	// Tables by OID, read once
	once    sync.Once
	tables  map[oid.Oid]Table
	tablErr error
}
'''), (I, '''	"fmt"
''', '''	"fmt"
	"sync"
'''), (I, '''func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
''', '''func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
	if err := i.db.Ping(); err != nil {
		return nil, err
	}

	i.once.Do(func() { i.tables, i.tablErr = i.readTables() })

	return i.tables, i.tablErr
}

// readTables reads the list of tables from the catalog.
func (i *Inspector) readTables() (map[oid.Oid]Table, error) {
'''), (I, '''	mapping := make(map[oid.Oid]Table)

	for''', '''	mapping := map[oid.Oid]Table{}

	for'''))
