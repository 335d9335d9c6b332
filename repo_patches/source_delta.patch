From 32a2271e165750557118a57d3336750a186b82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 01/19] fix: pg: reject frames whose declared length is smaller
 than its own header

A length below 4 made io.CopyN receive a negative count: the reader then handed
out a frame whose bytes did not agree with the length it declared.
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..e049df2 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself, so it cannot be smaller than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..17850af 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself, so it cannot be smaller than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From 1f9ed187f32f4ffddafe00cf0439f12508541f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 02/19] fix: pg: report malformed counts and sizes instead of
 panicking

Negative element counts and value sizes read from the network reached make and
slice expressions and took the whole process down; a huge option count
allocated gigabytes.
---
 pkg/pg/data_row_message.go                   | 4 ++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/read_buffer.go                        | 5 +++++
 pkg/pg/row_description_message.go            | 4 ++++
 4 files changed, 18 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..7161a98 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,10 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	if valuesCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..846920b 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least one byte (the string terminator)
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..51e3453 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,6 +32,11 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
+	// Lengths come from the network and could be anything
+	if n < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	if b.Len() < n {
 		return nil, io.EOF
 	}
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..49221c4 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,10 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	if fieldsCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From 75c051b6b4474a0b2468838545ef19405ac1048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 03/19] fix: pg: never alter or refuse a message that its typed
 form cannot represent

RecvMessage parsed every frame by its type byte alone, although the byte is
ambiguous between the two directions (frontend Describe, Sync, Execute and Close
were taken for backend DataRow, ParameterStatus, ErrorResponse and
CommandComplete), dropped trailing bytes, failed on SASL authentication requests
and parsed NegotiateProtocolVersion as a notice.
---
 pkg/pg/conn.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..fd5efae 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,7 @@
 package pg
 
 import (
+	"bytes"
 	"net"
 )
 
@@ -26,6 +27,11 @@ func (h *Conn) RecvStartupMessage() (*StartupMessage, error) {
 }
 
 // RecvMessage receives PostgreSQL message from the underlying network connection.
+//
+// The same message type byte means different things depending on who sends it (e.g., 'S' is ParameterStatus
+// when it comes from a backend, and Sync when it comes from a frontend), and newer servers extend existing messages.
+// A message that is not exactly represented by its typed form is returned as a GenericMessage, so that
+// the received message always serializes to the bytes that were received.
 func (h *Conn) RecvMessage() (Message, error) {
 	frame, err := ReadStandardFrame(h.conn)
 
@@ -33,12 +39,23 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return nil, err
 	}
 
+	message, err := parseMessage(frame)
+
+	if err != nil || !bytes.Equal(message.Frame().Bytes(), frame.Bytes()) {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, nil
+}
+
+// parseMessage parses PostgreSQL message from a network frame according to the frame's message type.
+func parseMessage(frame Frame) (Message, error) {
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From 6286d61985540b9fd9be7bcb28b5479e2d8099bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 04/19] fix: pg: check the startup parameter that PostgreSQL
 will actually use

A client could pass the database check with a first "database" parameter and
reach any other database with a second one, since PostgreSQL uses the last.
Bytes after the parameter list (dropped while relaying) are refused as well,
as PostgreSQL does.
---
 pkg/pg/startup_message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..a49ea9a 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -58,6 +58,11 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 
 			parameters = append(parameters, &StartupMessageParameter{key, value})
 		}
+
+		// The dictionary terminator ends the message
+		if messageData.Len() > 0 {
+			return nil, ErrMalformedMessage
+		}
 	}
 
 	message := &StartupMessage{
@@ -92,12 +97,15 @@ func (m *StartupMessage) Frame() Frame {
 }
 
 // GetParameter returns parameter value by its name. If parameter is not set it returns an empty string.
+// If parameter is set more than once, the last value wins: this is how PostgreSQL treats duplicates.
 func (m *StartupMessage) GetParameter(name string) string {
+	value := ""
+
 	for _, param := range m.Parameters {
 		if param.Name == name {
-			return param.Value
+			value = param.Value
 		}
 	}
 
-	return ""
+	return value
 }
-- 
2.43.0


From 299e02f49330d1c1d33f1ac78e972a56ccb4bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 05/19] fix: config_distributor: never block forever on a
 subscriber that stopped receiving

Updates were sent while holding the lock that Unsubscribe and Close need, so a
subscriber (or Get) that left while an update was being delivered to it
deadlocked the whole store. A Subscribe that raced with Close also left its
subscription behind.
---
 pkg/server/config_distributor.go | 69 +++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..3745f3d 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -42,8 +42,21 @@ type ConfigDistributor struct {
 	// Last received Config
 	lastConfig *Config
 
+	// Guards subscriptions when we cannot wait for mu (which is held while sending updates).
+	// Modification of subscriptions requires both mutexes, to read it any of them is enough.
+	subscriptionsMu sync.Mutex
+
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription is a subscription to Config updates.
+type configSubscription struct {
+	// Update is sent only if one of the checks returns true (or if there are no checks)
+	checks []ConfigChangedCheckFn
+
+	// Fired when subscription is cancelled
+	cancelled *Event
 }
 
 var (
@@ -98,17 +111,28 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	// Send current config immediately even before we registered a new subscription
-	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+	// Close could have been called while we were waiting for the lock
+	if p.closed.HasFired() {
+		return ErrConfigDistributorClosed
 	}
 
 	// Register subscription
-	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+	subscription := &configSubscription{checks: checks, cancelled: NewEvent()}
+
+	p.subscriptionsMu.Lock()
+	{
+		if p.subscriptions == nil {
+			p.subscriptions = make(map[chan<- *Config]*configSubscription)
+		}
+
+		p.subscriptions[ch] = subscription
 	}
+	p.subscriptionsMu.Unlock()
 
-	p.subscriptions[ch] = checks
+	// Send current config immediately
+	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
+		p.sendConfig(ch, subscription, p.lastConfig)
+	}
 
 	// Start monitoring goroutine
 	if p.started.Fire() {
@@ -120,6 +144,16 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 
 // Unsubscribe cancels subscription for the given channel.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
+	// Nobody might be receiving from the channel anymore: release the goroutine that is
+	// sending to it, because it holds the lock that we need.
+	p.subscriptionsMu.Lock()
+	{
+		if subscription, ok := p.subscriptions[ch]; ok {
+			subscription.cancelled.Fire()
+		}
+	}
+	p.subscriptionsMu.Unlock()
+
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
@@ -142,12 +176,16 @@ func (p *ConfigDistributor) Close() {
 
 // unsubscribeLocked unsubscribes the channel without locking the mutex.
 func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
+	p.subscriptionsMu.Lock()
+	defer p.subscriptionsMu.Unlock()
+
 	delete(p.subscriptions, ch)
 }
 
 // waitForNextConfig waits for the next received Config update from the source and then returns it.
 func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
+	// NB: channel must be buffered: the first update could be sent before Subscribe returns
+	nextConfigChan := make(chan *Config, 1)
 	defer close(nextConfigChan)
 
 	// Subscribe to ourselves for the duration of this method
@@ -205,13 +243,22 @@ func (p *ConfigDistributor) monitorConfig() {
 
 // notifySubscribersLocked notifies subscribers about config changes.
 func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+	for ch, subscription := range p.subscriptions {
+		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
+			p.sendConfig(ch, subscription, newConfig)
 		}
 	}
 }
 
+// sendConfig sends the config to the subscribed channel unless subscription is cancelled or distributor is closed.
+func (p *ConfigDistributor) sendConfig(ch chan<- *Config, subscription *configSubscription, config *Config) {
+	select {
+	case ch <- config:
+	case <-subscription.cancelled.Done():
+	case <-p.closed.Done():
+	}
+}
+
 // shouldSendUpdatedConfig runs the subscription checks to determine whether or not
 // subscribed channels should receive update.
 func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckFn, oldConfig, newConfig *Config) bool {
-- 
2.43.0


From 84df5b48842c0aafa271a460c25465e704fa9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 06/19] fix: session: deliver what was received before a
 hang-up, then end the session

- a hang-up of one side stopped nothing: the other connection stayed open until
  it failed on its own, and Start never returned;
- Close closed the channels under the goroutines that send to them (panic) and
  dropped the messages that were queued;
- the single dispatcher blocked both directions when one of them was stuck.
---
 pkg/server/session.go | 98 ++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 39 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..6c6b0f3 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -122,7 +123,7 @@ func (s *Session) Close() (err error) {
 
 	log.Info("session: closing")
 
-	// Close network connections — this will stop in pumps
+	// Close network connections — this will stop in pumps, which in turn stop everything else
 	if s.clientConn != nil {
 		err = s.clientConn.Close()
 
@@ -135,14 +136,6 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
-
 	return
 }
 
@@ -228,7 +221,10 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 }
 
 // startClientInPump pumps messages from the client into the clientIn channel.
+// It closes the channel when the client hangs up; everything that has been received is processed nevertheless.
 func (s *Session) startClientInPump() error {
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvMessage()
 
@@ -241,27 +237,35 @@ func (s *Session) startClientInPump() error {
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
+// When the channel is closed, there is nothing left to send and it hangs up on the client.
 func (s *Session) startClientOutPump() error {
+	var sendErr error
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.clientOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			s.clientConn.Close()
+			return sendErr
 		}
 
-		// Send the message over the network
-		err := s.clientConn.SendMessage(message)
-
-		if err != nil {
-			return err
+		// We keep draining the channel after an error, otherwise the other side would be stuck
+		if sendErr != nil {
+			continue
 		}
+
+		// Send the message over the network
+		sendErr = s.clientConn.SendMessage(message)
 	}
 }
 
-// startClientOutPump pumps messages from the database into the dbIn channel.
+// startDBInPump pumps messages from the database into the dbIn channel.
+// It closes the channel when the database hangs up; everything that has been received is processed nevertheless.
 func (s *Session) startDBInPump() error {
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -274,48 +278,64 @@ func (s *Session) startDBInPump() error {
 }
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
+// When the channel is closed, there is nothing left to send and it hangs up on the database.
 func (s *Session) startDBOutPump() error {
+	var sendErr error
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.dbOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			s.dbConn.Close()
+			return sendErr
 		}
 
-		// Send the message over the network
-		err := s.dbConn.SendMessage(message)
-
-		if err != nil {
-			return err
+		// We keep draining the channel after an error, otherwise the other side would be stuck
+		if sendErr != nil {
+			continue
 		}
+
+		// Send the message over the network
+		sendErr = s.dbConn.SendMessage(message)
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
+// startClientProcessing dispatches messages from the client to the database.
+// NB: directions are processed independently, one that is stuck must not block the other.
+func (s *Session) startClientProcessing() error {
+	defer close(s.dbOut)
+
+	// FIXME: temporary just proxy everything from the client to the database
 	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+		clientMsg, ok := <-s.clientIn
+
+		if !ok {
+			return nil
+		}
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-			s.dbOut <- clientMsg
+		s.dbOut <- clientMsg
+	}
+}
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+// startDBProcessing dispatches messages from the database to the client.
+func (s *Session) startDBProcessing() error {
+	defer close(s.clientOut)
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+	// FIXME: temporary just proxy everything from the database to the client
+	for {
+		dbMsg, ok := <-s.dbIn
 
-			s.clientOut <- dbMsg
+		if !ok {
+			return nil
 		}
+
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
+
+		s.clientOut <- dbMsg
 	}
 }
 
-- 
2.43.0


From bae9406fd54dd56add632cefcb09a12e5c0778a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 07/19] fix: session: Close during the database dial released
 nothing

A connection established after Close had looked at dbConn stayed open, and a
dial that hangs kept the Server's Close waiting until its watchdog panicked.
---
 pkg/server/session.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 6c6b0f3..0227a5c 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -23,6 +23,9 @@ type Session struct {
 	// Connection from a client to the Gevulot
 	clientConn *pg.Conn
 
+	// Guards dbConn until the session is established
+	dbConnMu sync.Mutex
+
 	// Connection from the Gevulot to the database
 	dbConn *pg.Conn
 
@@ -130,6 +133,9 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
 	if s.dbConn != nil {
 		err = s.dbConn.Close()
 
@@ -200,15 +206,20 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 		return err
 	}
 
-	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	// Connect to the database; give up if session is closed
+	dialer := net.Dialer{Cancel: s.closed.Done()}
+	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
 	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	err = s.setDBConn(pg.NewConn(conn))
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -220,6 +231,21 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the database connection. If session is closed already, it closes the connection and returns an error.
+func (s *Session) setDBConn(conn *pg.Conn) error {
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
+	if s.closed.HasFired() {
+		conn.Close()
+		return ErrSessionClosed
+	}
+
+	s.dbConn = conn
+
+	return nil
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 // It closes the channel when the client hangs up; everything that has been received is processed nevertheless.
 func (s *Session) startClientInPump() error {
-- 
2.43.0


From 21b8b6bf109c4f2dd3010e4194651c29ed62ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 08/19] fix: session: do not recurse on every SSL request

A client repeating SSL requests grew the stack without a bound.
---
 pkg/server/session.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 0227a5c..68d6669 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -158,7 +158,7 @@ func (s *Session) negotiateSessionParams() error {
 	}
 
 	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -167,8 +167,12 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		// Client either proceeds without SSL or asks for it again
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 75527a37f8cd81963283ffeaf55734cc4cc92cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 09/19] fix: session: Close could not end a session that waits
 for the first config

---
 pkg/server/session.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 68d6669..746b594 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -369,6 +369,30 @@ func (s *Session) startDBProcessing() error {
 	}
 }
 
+// waitForConfig returns the current config, waiting until there is one or session is closed.
+func (s *Session) waitForConfig() (*Config, error) {
+	type result struct {
+		config *Config
+		err    error
+	}
+
+	done := make(chan result, 1)
+
+	// NB: there is no way to abort Get() so we just leave it behind when session is closed
+	go func() {
+		config, err := s.cfg.Get()
+		done <- result{config, err}
+	}()
+
+	select {
+	case r := <-done:
+		return r.config, r.err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
+
 // getDBConnnectionParam returns connection parameter with given name from the config.
 func (s *Session) getDBConnnectionParam(name string) (string, error) {
 	s.mu.Lock()
@@ -376,8 +400,8 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
-		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		// This will block until we have a config
+		config, err := s.waitForConfig()
 
 		if err != nil {
 			return "", err
-- 
2.43.0


From 68abad27545d10436be6097c284e22e224524a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 10/19] fix: server: cancel the config subscription when Start
 returns

The channel was closed while it was still subscribed: the next config update
panicked with send on a closed channel.
---
 pkg/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..2059f55 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,7 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-- 
2.43.0


From 2951ccdde6d7d5f4bd9b45381f225c259f4e79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 11/19] fix: server: nothing can slip past Close, and listeners
 are replaced in order

- a listener or a session registered between Close's two steps stayed open, as
  did a connection that was accepted but refused; WaitGroup.Add raced with Wait;
- two config updates in a row could leave the server on the older address, since
  each listener was installed from its own goroutine.
---
 pkg/server/server.go | 49 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 2059f55..26c5aa3 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -111,8 +111,15 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// Replace the listener right away, so that listeners are replaced in the order of config updates
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				return err
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			srv.do(func() { _ = srv.acceptConns(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -135,6 +142,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted by the given (current) listener.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
@@ -166,7 +178,10 @@ func (srv *Server) Serve(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
+			conn.Close()
+			return ErrServerClosed
+		}
 	}
 }
 
@@ -177,6 +192,7 @@ func (srv *Server) Serve(ln net.Listener) error {
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		conn.Close()
 		return ErrServerClosed
 	}
 
@@ -192,6 +208,7 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		session.Close()
 		return err
 	}
 
@@ -263,15 +280,17 @@ func (srv *Server) Close() error {
 }
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
+// If Server is closed, it closes the new listener and returns an error.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
+		ln.Close()
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -288,26 +307,36 @@ func (srv *Server) changeListener(ln net.Listener) error {
 }
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
-// before the server is shutdown.
-func (srv *Server) do(f func()) {
+// before the server is shutdown. If Server is closed already, do returns false without calling f.
+func (srv *Server) do(f func()) bool {
+	// NB: Close waits for the goroutines after it released the lock
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	if srv.shutdown.HasFired() {
+		return false
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return true
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From b37ab61b5035ae17770c677e1b6616e6d8b2fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 12/19] fix: cli: a config change made while the program starts
 was lost

The file was read before it was watched.
---
 pkg/cli/cli.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 83f3478..9ae7296 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -99,21 +99,27 @@ func (c *cli) configureLogger(verbose bool) {
 }
 
 func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error) {
-	config, err := readServerConfig(configPath)
+	configChan := make(chan *server.Config, 1)
+
+	// NB: start watching before we read the file, otherwise a change made in between would be lost
+	err := watchServerConfig(configPath, configChan)
 
 	if err != nil {
 		return nil, err
 	}
 
-	configChan := make(chan *server.Config, 1)
-	configChan <- config
-
-	err = watchServerConfig(configPath, configChan)
+	config, err := readServerConfig(configPath)
 
 	if err != nil {
 		return nil, err
 	}
 
+	select {
+	case configChan <- config:
+	default:
+		// The watcher has already sent a newer config
+	}
+
 	return configChan, nil
 }
 
-- 
2.43.0


From f9f68fa32759ffa137e12360c1bda2e82efa3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 13/19] fix: cli: never apply a config without the listen
 address

Saving a file usually truncates it first; the empty config that was read in
between made the server listen on a random port of every interface.
---
 pkg/cli/read_server_config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..93ca3b2 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -8,6 +9,9 @@ import (
 	"github.com/hired/gevulot/pkg/server"
 )
 
+// errListenNotSet is returned when config doesn't contain an address to listen on.
+var errListenNotSet = errors.New("listen address is not set")
+
 // readServerConfig unmarshals server config at the given file path.
 func readServerConfig(path string) (*server.Config, error) {
 	// Convert to absolute path
@@ -25,5 +29,11 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// An empty address means "any port on any interface" for net.Listen, and this is what
+	// we would get from a file that has been truncated but not written yet.
+	if config.Listen == "" {
+		return nil, errListenNotSet
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 159548c745cfaa50e7f3d54f3d4e7792e94cdde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 14/19] fix: pgmeta: report an error that cut the list of
 tables short

---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..d52e096 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Next also returns false when the connection failed
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 734dd930bff7706c01f70716c14db4f3b469f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 15/19] fix: config_distributor: no gaps in what a subscriber
 gets while it unsubscribes

Once an update was skipped because the subscription was being cancelled (or the store closed), a later
update could still be sent, because select picks randomly among ready cases.
---
 pkg/server/config_distributor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 3745f3d..9440406 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -252,6 +252,11 @@ func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config
 
 // sendConfig sends the config to the subscribed channel unless subscription is cancelled or distributor is closed.
 func (p *ConfigDistributor) sendConfig(ch chan<- *Config, subscription *configSubscription, config *Config) {
+	// Select picks randomly when several cases are ready: once an update was skipped, later ones must be skipped too
+	if subscription.cancelled.HasFired() || p.closed.HasFired() {
+		return
+	}
+
 	select {
 	case ch <- config:
 	case <-subscription.cancelled.Done():
-- 
2.43.0


From fc8b94179c1fcb72d090d12657833c1c4b4a1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 16/19] fix: pgmeta: list the tables of schemas whose names
 merely start with pg

The underscore of LIKE 'pg_%' is a wildcard, so that the tables of a schema named e.g. pgboss were left out.
Only the prefix pg_ is reserved for system schemas.
---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index d52e096..aed36b4 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,7 +60,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
+         AND n.nspname NOT LIKE 'pg\_%'
 		 AND c.relkind IN ('r', 'm', 'v');`,
 	)
 
-- 
2.43.0


From 9abd7da8f50bc685490a298e486a7d5b23e6fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 17/19] fix: cli: keep watching the config after an error, and
 do not miss what was lost with it

---
 pkg/cli/file_watcher.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..6c3ef63 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -95,12 +95,18 @@ func (w *fileWatcher) Watch() error {
 
 				// fsnotify watcher error
 				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
+					// 'Errors' channel is closed
+					if !ok {
+						return
 					}
 
-					return
+					// The watcher keeps working after an error, but some events could have been lost
+					// (e.g., when the queue of the kernel overflows): assume that the file has changed.
+					log.Errorf("file watcher error: %v", err)
+
+					if w.OnWrite != nil {
+						w.OnWrite()
+					}
 
 				// StopWatch has been called
 				case <-w.watchDone:
-- 
2.43.0


From 7725e0c5f15e87ab309b24b5a6734339393881a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 18/19] fix: session: refuse physical replication, which is not
 bound to the configured database

---
 pkg/pg/startup_message.go | 34 ++++++++++++++++++++++++++++++++++
 pkg/server/session.go     |  6 ++++++
 2 files changed, 40 insertions(+)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index a49ea9a..df5e578 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -1,5 +1,7 @@
 package pg
 
+import "strings"
+
 // SSLRequestMagic is magic protocol version that client is using to request a SSL session.
 const SSLRequestMagic = 80877103
 
@@ -109,3 +111,35 @@ func (m *StartupMessage) GetParameter(name string) string {
 
 	return value
 }
+
+// IsPhysicalReplication returns true when the message requests a physical replication connection,
+// which (unlike a logical one, when parameter value is "database") is not bound to any database.
+func (m *StartupMessage) IsPhysicalReplication() bool {
+	replication := false
+
+	for _, param := range m.Parameters {
+		if param.Name != "replication" {
+			continue
+		}
+
+		// Once requested, logical replication cannot be turned into physical by a duplicate
+		if param.Value == "database" {
+			return false
+		}
+
+		replication = isTrue(param.Value)
+	}
+
+	return replication
+}
+
+// isTrue parses a boolean the way PostgreSQL does: case insensitive, unambiguous prefixes are allowed.
+func isTrue(value string) bool {
+	value = strings.ToLower(value)
+
+	if value == "" {
+		return false
+	}
+
+	return strings.HasPrefix("true", value) || strings.HasPrefix("yes", value) || value == "on" || value == "1"
+}
diff --git a/pkg/server/session.go b/pkg/server/session.go
index 746b594..3f962cf 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -191,6 +191,12 @@ func (s *Session) negotiateSessionParams() error {
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
+	// PostgreSQL ignores the database name if physical replication is requested: such a connection
+	// gives access to all databases
+	if startupMessage.IsPhysicalReplication() {
+		return errors.New("session: physical replication is not allowed")
+	}
+
 	// Establish DB connection on behalf of the client
 	return s.establishDBConnection(startupMessage)
 }
-- 
2.43.0


From dd029af2e44138c9d55e415514878e5564f7fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:24 +0000
Subject: [PATCH 19/19] fix: pgmeta: list partitioned and foreign tables too

---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index aed36b4..6e5f01b 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -61,7 +61,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
          AND n.nspname NOT LIKE 'pg\_%'
-		 AND c.relkind IN ('r', 'm', 'v');`,
+		 AND c.relkind IN ('r', 'p', 'f', 'm', 'v');`,
 	)
 
 	if err != nil {
-- 
2.43.0

