From c5d0b670056f3acb838ab1ccc2363125a16dd06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 01/83] fix: report a connection lost during SSL negotiation as
 a failed attempt

negotiate_ssl() let the raw socket exception escape from connect(), so the
negotiation transaction was never marked fatal and the remaining socket
factories of the connector were not tried.
---
 postgresql/protocol/client3.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..02b60bd 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -160,7 +160,20 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				# The connection was lost before the server answered.
+				self.xact.exception = err
+				self.xact.fatal = True
+				self.xact.state = xact.Complete
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', self.socket_factory.fatal_exception_message(err) \
+						or "connection failed during SSL negotiation"),
+				))
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From 83ba030b522d66758d89c4d1ae10453a34b59733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 02/83] fix: do not advance a transaction in step() when the
 transfer failed

When the write or read failed, step() still ran the transaction's state
function: a fatal, complete transaction went back to Receiving, and a COPY
raised IndexError on the empty message sequence.
---
 postgresql/protocol/client3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 02b60bd..602b8c5 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -427,15 +427,15 @@ class Connection(object):
 		try:
 			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 			else:
 				raise RuntimeError(
 					"unexpected PQ transaction state: " + repr(dir)
-- 
2.43.0


From 64e0a901d749ff1b462ac5dbbc8b51184efbe4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 03/83] fix: keep the fatal transaction in
 Connection.synchronize()

A fatal transaction stays attached to mark the connection as lost;
synchronize() replaced it and wrote to the broken channel.
---
 postgresql/protocol/client3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 602b8c5..951f0a9 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -99,6 +99,9 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
+		if self.xact is not None:
+			# It was fatal; the connection is not usable.
+			return
 		x = xact.Instruction((element.SynchronizeMessage,))
 		self.xact = x
 		self.complete()
-- 
2.43.0


From 3f63efbb5774a5004c002022610099c16c545c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 04/83] fix: give every fatal socket error a message

An OSError without errno has strerror None, which the callers of
fatal_exception_message take for 'not fatal'; the raw exception escaped
and the connection was not marked as lost.
---
 postgresql/python/socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/socket.py b/postgresql/python/socket.py
index 6587d4c..e55864d 100644
--- a/postgresql/python/socket.py
+++ b/postgresql/python/socket.py
@@ -46,7 +46,7 @@ class SocketFactory(object):
 		"""
 		if typ.try_again(err):
 			return None
-		return getattr(err, 'strerror', '<strerror not present>')
+		return getattr(err, 'strerror', None) or str(err) or '<strerror not present>'
 
 	@property
 	def _security_context(self):
-- 
2.43.0


From e8b73370c77acc45eec8b2ec37c6e5e1a8da6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 05/83] fix: hand over equal notices received in one batch

Two notices or notifications with the same content are two messages; the
duplicate check is only meant to recognise a message that is processed again.
---
 postgresql/protocol/xact3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..f892dad 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -523,7 +523,7 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					if not any(x is y for y in self._asyncs):
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
-- 
2.43.0


From 30044da552cd9530c59b9ee84f2bf0282dd0cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 06/83] fix: accept ReadyForQuery after a failed function call

An ErrorResponse to a FunctionCall is followed by ReadyForQuery without a
FunctionCallResponse; the reply table took it for a protocol violation and
the connection was lost.
---
 postgresql/protocol/xact3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index f892dad..6cfabf0 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -321,7 +321,11 @@ class Instruction(Transaction):
 		),
 
 		element.Function.type : (
-			{element.FunctionResult.type : (element.FunctionResult.parse, 1)},
+			{
+				element.FunctionResult.type : (element.FunctionResult.parse, 1),
+				# After an error.
+				element.Ready.type : (element.Ready.parse, None),
+			},
 			{element.Ready.type : (element.Ready.parse, None)},
 		),
 
-- 
2.43.0


From 7fce3b7912e61c75ae22581f01301d73a2ebe69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 07/83] fix: startup: a reply to the password that is not an
 authentication message is a protocol violation

---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6cfabf0..e95e56d 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -215,6 +215,17 @@ class Negotiation(Transaction):
 				return
 			x = (yield (element.Password(pw),))
 
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
 				self.fatal = True
-- 
2.43.0


From 80e809df02f00d42873614fc72ccd9d68d4cd3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 08/83] fix: program limit errors are PostgreSQL errors and
 found by their code

---
 postgresql/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..c6542e3 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -344,7 +344,7 @@ class DiskFullError(IRError):
 class TooManyConnectionsError(IRError):
 	code = '53300'
 
-class PLEError(OverflowError):
+class PLEError(Error, OverflowError):
 	"""
 	Program Limit Exceeded
 	"""
-- 
2.43.0


From ee6839a45c8bb582d35600e713f4bd1afdd8b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 09/83] fix: a chunk or statement description whose request
 failed under another one raises its error

---
 postgresql/driver/pq3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..8832e45 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1013,6 +1013,9 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		elif x.fatal is not None:
+			# It was completed by another request and failed.
+			self.database.typio.raise_error(x.error_message, creator = self)
 
 		# get all the element.Tuple messages
 		chunk = [
@@ -1520,6 +1523,10 @@ class Statement(pg_api.Statement):
 			except Exception:
 				self.closed = True
 				raise
+		elif self._xact.fatal is not None:
+			# It was completed by another request and failed.
+			self.closed = True
+			self.database.typio.raise_error(self._xact.error_message, creator = self)
 
 		(*head, argtypes, tupdesc, last) = self._xact.messages_received()
 
-- 
2.43.0


From b45edf3433f5766732794af5ef93a59a9d8d0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 10/83] fix: connect() may be called again after it failed

---
 postgresql/driver/pq3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8832e45..f04cde2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2437,7 +2437,7 @@ class Connection(pg_api.Connection):
 			# already connected? just return.
 			return
 
-		if hasattr(self, 'pq'):
+		if getattr(self, 'pq', None) is not None:
 			# It's closed, *but* there's a PQ connection..
 			x = self.pq.xact
 			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
@@ -2520,6 +2520,8 @@ class Connection(pg_api.Connection):
 			# The startup/negotiation xact completed.
 			if pq.xact is None:
 				self.pq = pq
+				# those of an earlier attempt to connect
+				self.__dict__.pop('failures', None)
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
-- 
2.43.0


From ffc2e1eb1e5203e2a9ddba41023b68738060b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 11/83] fix: a connector's representation does not show the
 password

---
 postgresql/driver/pq3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f04cde2..6ee97ea 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2767,7 +2767,8 @@ class Connector(pg_api.Connector):
 
 	def __repr__(self):
 		keywords = (',' + os.linesep + ' ').join([
-			'%s = %r' %(k, getattr(self, k, None)) for k in self.__dict__
+			'%s = %r' %(k, getattr(self, k, None) if k != 'password' else '***')
+			for k in self.__dict__
 			if not k.startswith('_') and getattr(self, k, None) is not None
 		])
 		return '{mod}.{name}({keywords})'.format(
-- 
2.43.0


From ee04d87267aae17d9e4e642b9f7026e4853f6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 12/83] fix: the password is masked in the representation of
 the startup and in the protocol trace

---
 postgresql/protocol/client3.py  | 2 +-
 postgresql/protocol/element3.py | 7 +++++++
 postgresql/protocol/xact3.py    | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 951f0a9..9ff5264 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -357,7 +357,7 @@ class Connection(object):
 				self._tracer('↑ {type}({lend}): {data}{nl}'.format(
 					type = repr(t)[2:-1],
 					lend = len(data_out),
-					data = repr(data_out),
+					data = repr(data_out) if msg.__class__ is not element.Password else '***',
 					nl = os.linesep
 				))
 			else:
diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..e161601 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -667,6 +667,13 @@ class Password(StringMessage):
 	type = message_types[b'p'[0]]
 	__slots__ = ('data',)
 
+	def __repr__(self):
+		return '%s.%s(%s)' %(
+			__name__,
+			type(self).__name__,
+			repr(b'***'),
+		)
+
 class Disconnect(EmptyMessage):
 	"""
 	Connection closed message.
diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index e95e56d..9a0b717 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -111,7 +111,7 @@ class Negotiation(Transaction):
 
 	def __repr__(self):
 		s = type(self).__module__ + "." + type(self).__name__
-		s += pprint.pformat((self.startup_message, self.password)).lstrip()
+		s += pprint.pformat((self.startup_message, b'***' if self.password else self.password)).lstrip()
 		return s
 
 	def messages_received(self):
-- 
2.43.0


From b8b6445668a3f5f70668ee2d45e59135c03a8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 13/83] fix: listen() and unlisten() quote the channel's name

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6ee97ea..4a45497 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2710,7 +2710,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
@@ -2719,7 +2719,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			qstr += '; UNLISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From 9a1d1e68f9fd0fabdf7e94a50cb247fc800c7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 14/83] fix: quote_ident_if_needed() quotes identifiers with
 upper case letters

---
 postgresql/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..c58b5cf 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -47,7 +47,8 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	# An unquoted identifier is folded to lower case.
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xu)
 	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-- 
2.43.0


From eb4a389d7503e5bd521ed119eabc183c6c65d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 15/83] fix: asynchronous messages received while statements
 and cursors are released are not lost

---
 postgresql/protocol/client3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 9ff5264..02a34a6 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -378,7 +378,7 @@ class Connection(object):
 			)
 		return r
 
-	def take_out_trash(self):
+	def take_out_trash(self, asynchook = xact.return_arg):
 		"""
 		close cursors and statements slated for closure.
 		"""
@@ -392,7 +392,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
@@ -412,7 +412,9 @@ class Connection(object):
 			if self.garbage_statements or self.garbage_cursors:
 				# This *has* to be done before a new transaction
 				# is pushed.
-				self.take_out_trash()
+				# The asynchronous messages received with it are those of
+				# the request being pushed.
+				self.take_out_trash(getattr(x, 'asynchook', xact.return_arg))
 			if self.xact is None:
 				# set it as the current transaction and begin
 				self.xact = x
-- 
2.43.0


From 727b0fb0ee91a8aa48502e941121aef5cd7bc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 16/83] fix: notifications received before a watched connection
 failed are delivered

---
 postgresql/notifyman.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..5987b5b 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -90,6 +90,9 @@ class NotificationManager(object):
 				# failed to collect notifies; put in exception list.
 				# It is very unlikely that this is *not* a FATAL error.
 				x.append(db)
+		# Connections that failed are not looked at again, so
+		# take the NOTIFYs that were received before the failure.
+		self._pull_from_connections()
 		self.trash(x)
 
 	def trash(self, connections):
-- 
2.43.0


From e5b128c354fda9994482ee35c808102732a53f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 17/83] fix: asynchronous messages received while synchronizing
 are not lost

---
 postgresql/driver/pq3.py       | 4 ++--
 postgresql/protocol/client3.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4a45497..e7ce7da 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1783,7 +1783,7 @@ class Statement(pg_api.Statement):
 				step()
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
-		self.database.pq.synchronize()
+		self.database.pq.synchronize(self.database._receive_async)
 
 	def _load_tuple_chunks(self, chunks, tuple=tuple):
 		pte = self._raise_parameter_tuple_error
@@ -1830,7 +1830,7 @@ class Statement(pg_api.Statement):
 			# exception being marked as the cause, so there should
 			# be no [exception] information loss.
 			##
-			self.database.pq.synchronize()
+			self.database.pq.synchronize(self.database._receive_async)
 			raise
 
 	def load_chunks(self, chunks, *parameters):
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 02a34a6..64d3afd 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -90,19 +90,21 @@ class Connection(object):
 		return locals()
 	tracer = property(**tracer())
 
-	def synchronize(self):
+	def synchronize(self, asynchook = xact.return_arg):
 		"""
 		Explicitly send a Synchronize message to the backend.
 		Useful for forcing the completion of lazily processed transactions.
 
 		NOTE: This will not cause trash to be taken out.
+
+		`asynchook` is given the asynchronous messages received meanwhile.
 		"""
 		if self.xact is not None:
 			self.complete()
 		if self.xact is not None:
 			# It was fatal; the connection is not usable.
 			return
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = asynchook)
 		self.xact = x
 		self.complete()
 
-- 
2.43.0


From 8b949c1c1e4000451009207e3ad71aec0a18c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 18/83] fix: ConfigFile: item deletion, iteration and use as a
 context manager

---
 postgresql/configfile.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..b17b44d 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -244,7 +244,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
@@ -263,7 +263,7 @@ class ConfigFile(pg_api.Settings):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
@@ -275,10 +275,7 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
+		self.update(self._restore.pop())
 		return exc is None
 
 	def get(self, k, alt = None):
-- 
2.43.0


From edfdf5fac3e3fc1625c29306adcaf497a9c14ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 19/83] fix: the string of a protocol connection used names
 that do not exist

---
 postgresql/protocol/client3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 64d3afd..8af1682 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -6,6 +6,7 @@ Protocol version 3.0 client and tools.
 """
 import os
 import weakref
+from traceback import format_exception_only
 from .buffer import pq_message_stream
 from . import element3 as element
 from . import xact3 as xact
@@ -527,15 +528,16 @@ class Connection(object):
 		self.garbage_statements.append(pq_statement_id)
 
 	def __str__(self):
+		ssl = 'NOSSL'
 		if hasattr(self, 'ssl_negotiation'):
 			if self.ssl_negotiation is True:
 				ssl = 'SSL'
 			elif self.ssl_negotiation is False:
 				ssl = 'NOSSL after SSL'
-		else:
-			ssl = 'NOSSL'
 
-		excstr = ''.join(self.exception_string(type(self.exception), self.exception))
+		exc = getattr(self.xact, 'exception', None)
+		excstr = '' if exc is None else \
+			''.join(format_exception_only(type(exc), exc))
 		return str(self.socket_factory) \
 			+ ' -> (' + ssl + ')' \
 			+ os.linesep + excstr.strip()
-- 
2.43.0


From 259202006db69aef511f9bc2ed1b319d2f295d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 20/83] fix: Negotiation.messages_received referred to a
 missing attribute

---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 9a0b717..fe98fcf 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -115,7 +115,8 @@ class Negotiation(Transaction):
 		return s
 
 	def messages_received(self):
-		return self.processed
+		for messages in self.received:
+			yield from messages
 
 	def sent(self):
 		"""
-- 
2.43.0


From b7821e207a903d1218856fd7a3a78a23fe21a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 21/83] fix: Startup.parse failed to format its version error

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index e161601..472c886 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -604,7 +604,7 @@ class Startup(Message, dict):
 	@classmethod
 	def parse(typ, data):
 		if data[0:4] != typ.packed_version:
-			raise ValueError("invalid version code {1}".format(repr(data[0:4])))
+			raise ValueError("invalid version code {0}".format(repr(data[0:4])))
 		kw = dict()
 		key = None
 		for value in data[4:].split(b'\x00')[:-2]:
-- 
2.43.0


From ea56dc720e51657cd17cd4fa826d61013fb351e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 22/83] fix: pg_dotconf -f used names that do not exist

---
 postgresql/bin/pg_dotconf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..fa024c3 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -36,11 +36,7 @@ def command(args):
 	settings = {}
 	for sfp in co.settings:
 		with open(sfp) as sf:
-			for line in sf:
-				pl = configfile.parse_line(line)
-				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+			settings.update(configfile.read_config(sf))
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From ce80b4e497124f4d1d0cce4ab60ed5a0340e3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 23/83] fix: pg_python removes the builtins it added

---
 postgresql/bin/pg_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index a97aa97..297671f 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -124,7 +124,7 @@ def command(argv = sys.argv):
 			builtins_d.update(restore)
 			for k, v in builtin_overload.items():
 				if v is None:
-					del builtins_d[x]
+					del builtins_d[k]
 			if trace_file is not None:
 				trace_file.close()
 	except:
-- 
2.43.0


From 0dd13350e8e912fb750458a4f51ead80976fff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 24/83] fix: clientparameters: an invalid setting argument
 raised NameError

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..63d4d6f 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
-- 
2.43.0


From 4205a2f59eed3fe3afd593471180152423b3402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 25/83] fix: column(): NULLs and the errors of a column that
 cannot be unpacked

---
 postgresql/driver/pq3.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index e7ce7da..b213a85 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -748,22 +748,17 @@ class Output(object):
 		return x
 
 	# Process the element.Tuple message in x for column()
-	def _process_tuple_chunk_Column(self, x, range = range):
+	def _process_tuple_chunk_Column(self, x):
 		unpack = self._output_io[0]
-		# get the raw data for the first column
-		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+		column = []
+		for y in x:
+			# get the raw data for the first column
+			data = y[0]
+			try:
+				column.append(None if data is None else unpack(data))
+			except Exception as cause:
+				self._raise_column_tuple_error(cause, self._output_io, (data,), 0)
+		return column
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
-- 
2.43.0


From 57409f9dd46aa8a1da628e5a1986ae25fc8f1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 26/83] fix: stored procedures called with keyword arguments

---
 postgresql/driver/pq3.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b213a85..065813c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1866,17 +1866,21 @@ class StoredProcedure(pg_api.StoredProcedure):
 				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
 			except KeyError as k:
 				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+						self.name, k.args[0]
 					)
 				)
 			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
+			for x in range(len(args) + len(kw)):
+				if word_idx and x == word_idx[0][1]:
+					input.append(word_idx.pop(0)[0])
 				else:
-					input.append(argiter.next())
+					try:
+						input.append(next(argiter))
+					except StopIteration:
+						raise TypeError("%s is missing argument %d" %(
+								self.name, x + 1
+							)
+						)
 		else:
 			input = args
 
-- 
2.43.0


From d35ede6345354223c22d643dad090591af4306a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 27/83] fix: Category: the error about an existing attribute
 raised NameError

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..0dcd030 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -427,7 +427,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From 8e3f8c901187b4ba86d747803257f673694973a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 28/83] fix: temporal: destroy did not terminate the open
 connections

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..cd4179a 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -65,6 +65,7 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
+			cluster = self.cluster
 			# Kill all the open connections.
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
@@ -76,7 +77,6 @@ class Temporal(object):
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
-- 
2.43.0


From a18087cdb61bed294d23c7a8166b74c70a4f8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 29/83] fix: copyman: most fittings had no state to describe

---
 postgresql/copyman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..30c232c 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -252,6 +252,8 @@ class WireState(object):
 class Fitting(Element):
 	_e_label = 'FITTING'
 
+	state = 'unknown'
+
 	def _e_metas(self):
 		yield None, '[' + self.state + ']'
 
-- 
2.43.0


From 5b5e40698099500d781a15b1f880cf265113703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 30/83] fix: ConfigFile: close the file after reading keys,
 values and items

---
 postgresql/configfile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index b17b44d..055ebca 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -283,13 +283,16 @@ class ConfigFile(pg_api.Settings):
 			return read_config(cf, selector = k.__eq__).get(k, alt)
 
 	def keys(self):
-		return read_config(self._open(self.path)).keys()
+		with self._open(self.path) as cf:
+			return read_config(cf).keys()
 
 	def values(self):
-		return read_config(self._open(self.path)).values()
+		with self._open(self.path) as cf:
+			return read_config(cf).values()
 
 	def items(self):
-		return read_config(self._open(self.path)).items()
+		with self._open(self.path) as cf:
+			return read_config(cf).items()
 
 	def update(self, keyvals):
 		"""
-- 
2.43.0


From ff14a869cb2f53f4c0c23a23ab4ac7be5f34ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 31/83] fix: pg_python: close the trace file when the
 connection fails

---
 postgresql/bin/pg_python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index 297671f..7ac2447 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -125,11 +125,12 @@ def command(argv = sys.argv):
 			for k, v in builtin_overload.items():
 				if v is None:
 					del builtins_d[k]
-			if trace_file is not None:
-				trace_file.close()
 	except:
 		pg_sys.libpath.remove(os.path.curdir)
 		raise
+	finally:
+		if trace_file is not None:
+			trace_file.close()
 	return rv
 
 if __name__ == '__main__':
-- 
2.43.0


From 56c2b4d3a7f6e1ad534e2c75f32f9c0bc04e6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 32/83] fix: declare a parameter without a packer as text,
 which is how it is encoded (P09)

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 065813c..8a11740 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1556,7 +1556,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
-- 
2.43.0


From db8e59ada55dc47c2f1f2a1e247ab4b1e3d7f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 33/83] fix: finish an interrupted preparation before a
 statement is called (P09)

---
 postgresql/driver/pq3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8a11740..0207ed0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1564,6 +1564,8 @@ class Statement(pg_api.Statement):
 		self._xact = None
 
 	def __call__(self, *parameters):
+		if self.closed is None:
+			self._fini()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
-- 
2.43.0


From 524b723de57cb0959dcbcacc2b109df6cef04de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 34/83] fix: chunks() of a statement opened by its identifier
 had no processor for its rows (P28)

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0207ed0..f0e7639 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -968,6 +968,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From 71ce3f1deec582ea7588a243c39e2c7ef7366a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 35/83] fix: seek forward or backward with a cursor of backward
 direction moved to an absolute position (P28)

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f0e7639..5b0ca90 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1181,7 +1181,7 @@ class Cursor(Output, pg_api.Cursor):
 						offset = -offset
 					elif rwhence == 'ABSOLUTE':
 						rwhence = 'FROM_END'
-					else:
+					elif rwhence == 'FROM_END':
 						rwhence = 'ABSOLUTE'
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
-- 
2.43.0


From 518c723f0f067ff6f144c63760874e13de2b4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 36/83] fix: release advisory locks with the outermost release
 only (P19)

---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From 03fbd1cfd7e4164cee2665e2ac0c624859e77ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 37/83] fix: give the path of the settings back by resetting
 search_path, cache included (P25)

---
 postgresql/driver/pq3.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5b0ca90..91300a8 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2009,10 +2009,7 @@ class Settings(pg_api.Settings):
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			del self['search_path']
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
-- 
2.43.0


From 4302493bc06629f7afc043a3d2d007413da47b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 38/83] fix: call every subscriber of a setting and note its
 new value when one of them raises (P25)

---
 postgresql/driver/pq3.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 91300a8..d26443d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -5,6 +5,7 @@
 PG-API interface for PostgreSQL using PQ version 3.0.
 """
 import os
+import sys
 import weakref
 import socket
 from traceback import format_exception
@@ -2065,12 +2066,15 @@ class Settings(pg_api.Settings):
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
-		for x in subs.get(key, ()):
-			x(self.database, key, val)
-		if None in subs:
-			for x in subs[None]:
-				x(self.database, key, val)
-		self.cache[key] = val
+		try:
+			for x in (*subs.get(key, ()), *subs.get(None, ())):
+				try:
+					x(self.database, key, val)
+				except Exception:
+					# keep the other callbacks from missing the change
+					sys.excepthook(*sys.exc_info())
+		finally:
+			self.cache[key] = val
 
 	def subscribe(self, key, callback):
 		"""
-- 
2.43.0


From 7a472a7a008ba5e70851fe627963d41abe4e0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 39/83] fix: forget cached settings that a reset or the end of
 a transaction takes back (P25)

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index d26443d..b8bc3aa 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2232,6 +2232,8 @@ class Transaction(pg_api.Transaction):
 			q = 'COMMIT'
 		else:
 			q = self._release_string(hex(id(self)))
+		# a failed block is rolled back here, the settings made in it too
+		self.database.settings._clear_cache()
 		self.database.execute(q)
 		self.state = 'committed'
 
@@ -2256,6 +2258,8 @@ class Transaction(pg_api.Transaction):
 			q = self._rollback_to_string(hex(id(self)))
 		else:
 			raise RuntimeError("unknown transaction type " + repr(self.type))
+		# the settings made in the transaction are rolled back with it
+		self.database.settings._clear_cache()
 		self.database.execute(q)
 		self.state = 'aborted'
 	abort = rollback
@@ -2426,6 +2430,7 @@ class Connection(pg_api.Connection):
 		restore original settings, reset the transaction, drop temporary
 		objects.
 		"""
+		self.settings._clear_cache()
 		self.execute("ABORT; RESET ALL;")
 
 	def __enter__(self):
-- 
2.43.0


From 48773622615ac1e3e293dd3852dd9209e3dc256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 40/83] fix: do not nest another transaction when a connected
 DB-API connection is connected again, as entering its context does (P24)

---
 postgresql/driver/dbapi20.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..4a3e349 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -355,6 +355,9 @@ class Connection(Connection):
 	del autocommit_set, autocommit_get, autocommit_del
 
 	def connect(self, *args, **kw):
+		if self.closed is False:
+			# Connected already, and inside its transaction.
+			return
 		super().connect(*args, **kw)
 		self._xact = self.xact()
 		self._xact.start()
-- 
2.43.0


From 711da962b55fdc3f22e99239b5c77f1c8d5f20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 41/83] fix: start a new transaction after a commit that the
 server refused (P24)

---
 postgresql/driver/dbapi20.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 4a3e349..f3180db 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -386,7 +386,14 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
+		try:
+			self._xact.commit()
+		except Exception:
+			if self.closed is False and self.pq.state == b'I':
+				# The server refused and rolled back; go on in a new transaction.
+				self._xact = self.xact()
+				self._xact.start()
+			raise
 		self._xact = self.xact()
 		self._xact.start()
 
-- 
2.43.0


From adfd1ce25debb95c34fb2a9f92a1bb2b1a62ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 42/83] fix: do not leave the rows of earlier statements to be
 fetched after one without rows (P24)

---
 postgresql/driver/dbapi20.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index f3180db..20c1a9e 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -284,9 +284,8 @@ class Cursor(object):
 			if self.rowcount is None:
 				self.rowcount = -1
 			self.description = None
-			# execute bumps any current portal
-			if self.__portals:
-				del self._portal
+			# nothing to fetch, nor from earlier statements
+			del self.__portals[:]
 		return self
 
 	def executemany(self, statement, parameters):
@@ -301,6 +300,8 @@ class Cursor(object):
 		else:
 			ps.load_rows(parameters)
 		self.rowcount = -1
+		self.description = None
+		del self.__portals[:]
 		return self
 
 	def close(self):
-- 
2.43.0


From 04192d8a3b594a6c8ef13c8d336db604b4298d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 43/83] fix: recognise e'' strings, dollar quotes of several
 lines and every unterminated quote when splitting SQL (P29)

---
 postgresql/string.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index c58b5cf..cf5f4dc 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -50,11 +50,11 @@ def quote_ident_if_needed(text):
 	# An unquoted identifier is folded to lower case.
 	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+quote_re = re.compile(r"""(?xsu)
+	(?<![\w$])[Ee]'(?:''|\\.|[^'])*(')?            (?# Backslash escapes E'str')
+|	'(?:''|[^'])*(')?                              (?# Regular literals 'str')
+|	"(?:""|[^"])*(")?                              (?# Identifiers "str")
+|	(\$(?:[^0-9$]\w*)?\$)(?:.*?(\4)|.*)            (?# Dollar quotes $$str$$)
 """)
 
 def split(text):
@@ -83,30 +83,23 @@ def split(text):
 	while match is not None:
 		# text preceding the quotation
 		yield text[lastend:match.start()]
-		# the dollar quote, if any
-		dq = match.groups()[0]
+		# the dollar quote, if any, and the quote that terminates
+		*ends, dq, dqend = match.groups()
 		if dq is not None:
-			endoff = len(dq)
 			quote = dq
-			end = quote
+			end = dqend
 		else:
-			endoff = 1
-			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
-				end = "'"
-			else:
-				end = quote = q
+			quote = text[match.start()]
+			if quote in 'Ee':
+				quote += "'"
+			end = ends[0] or ends[1] or ends[2]
 
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		if end is None:
+			# No terminating quote, it consumed the end.
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
-			yield (quote, text[match.start()+len(quote):match.end()-endoff])
+			yield (quote, text[match.start()+len(quote):match.end()-len(end)])
 
 		lastend = match.end()
 		match = scan.search()
@@ -128,7 +121,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From f5db33f7ca1df9f7cfde5877771c85579284a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 44/83] fix: skip the whole separator in split_using (P29)

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index cf5f4dc..fb1e98a 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -181,7 +181,7 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
-- 
2.43.0


From e27199390abef8875b4222f48e48694d8182a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 45/83] fix: refuse every identifier whose quotation does not
 end with it (P29)

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index fb1e98a..4a29412 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -193,7 +193,7 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			if len(x) < 2 or not x.endswith('"') or '"' in x[1:-1].replace('""', ''):
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
-- 
2.43.0


From b3948293c770e29ff994cfe399f683df54609be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 46/83] fix: let Row.get reach the first item from the end and
 Row.items pair each name with its own value (P31)

---
 postgresql/types/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..2189d48 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -575,7 +575,7 @@ class Row(tuple):
 	def get(self, i, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
@@ -590,7 +590,8 @@ class Row(tuple):
 		return iter(self)
 
 	def items(self):
-		return zip(iter(self.column_names), iter(self))
+		# The name of several columns stands for the last of them.
+		return ((k, tuple.__getitem__(self, self.keymap[k])) for k in self.column_names)
 
 	def index_from_key(self, key):
 		return self.keymap.get(key)
-- 
2.43.0


From 0871a2ceea9ed9829af86ea04d39683033269ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 47/83] fix: give the sub-array of a negative index and raise
 IndexError for one past the end (P31)

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 2189d48..2708c9c 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -530,8 +530,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if not -l <= item < l:
+				raise IndexError("index {0} is out of range".format(item))
+			if item < 0:
+				item += l
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From fcfef24328a22891d6676207cc1cc035dfaeb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 48/83] fix: count the upper bound of an array from the lower
 bound given (P31)

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 2708c9c..6a39fe7 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -354,7 +354,7 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = ((lowerbounds[0] if lowerbounds else 1) + nelements - 1,)
 				dimensions = (nelements,)
 
 		# consistency..
-- 
2.43.0


From 7aa1ac71dbefaafebd3588f3adafe9796977f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 49/83] fix: give None, as SQL does, for more subscripts than
 an array has dimensions (P31)

---
 postgresql/types/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 6a39fe7..2903020 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -465,6 +465,9 @@ class Array(object):
 		Like `get_element`, but with SQL indirection semantics. Notably, returns
 		`None` on IndexError.
 		"""
+		if len(address) > len(self.lowerbounds):
+			# More subscripts than dimensions.
+			return None
 		try:
 			a = [a - lb for (a, lb) in zip(address, self.lowerbounds)]
 			# get_element accepts negatives, so check the converted sequence.
-- 
2.43.0


From 55ebdbc50553199a227e736eeedb328a89c0aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 50/83] fix: refuse nested lists of uneven depth as an array
 (P31)

---
 postgresql/types/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 2903020..d8bff6a 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -262,9 +262,13 @@ class Array(object):
 		if ndepth == len(dimensions):
 			# at the bottom
 			r = hier
+			if any(x.__class__ is list for x in hier):
+				raise ValueError("list size not consistent with dimensions at depth " + str(ndepth))
 		else:
 			# go deeper
 			for x in hier:
+				if x.__class__ is not list:
+					raise ValueError("list size not consistent with dimensions at depth " + str(ndepth))
 				r.extend(typ.unroll_nest(x, dimensions, ndepth))
 		return r
 
-- 
2.43.0


From 5696d233d5cb263aa32a05521b02c60f0c4bbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 51/83] fix: give the rows of a cursor found by its id a
 mapping of their columns (P31)

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b8bc3aa..b4f1824 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1117,7 +1117,7 @@ class Cursor(Output, pg_api.Cursor):
 				if m.type == tupledesc:
 					typio = self.database.typio
 					self._output = m
-					self._output_attmap = typio.attribute_map(self._output)
+					self._output_attmap = dict(typio.attribute_map(self._output))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
 					# tuple output
 					self._output_io = typio.resolve_descriptor(
-- 
2.43.0


From 6e71b63fe8c09f8600f3aae6b38dbdf80562133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 52/83] fix: send and read the zone of a timetz as seconds west
 of UTC (P14)

---
 postgresql/types/io/stdlib_datetime.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..05aea42 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -185,10 +185,12 @@ def timetz_pack(x,
 	"""
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
+
+	PostgreSQL's timezone is in seconds *west* of UTC.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +201,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From 0caadb990bb270736c02339a24a492d998bd2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 53/83] fix: keep the seconds of a fixed offset (P14)

---
 postgresql/python/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..529ce53 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, offset_in_seconds)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From ace9aaaddf3fa49122ba527b2bc4a81d34e781fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 54/83] fix: send an inet address with its full mask (P14)

---
 postgresql/types/io/lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..c88ecad 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -283,7 +283,12 @@ def net_pack(triple,
 	Pack Postgres' inet/cidr data structure.
 	"""
 	family, mask, data = triple
-	return bytes((fmap[family], mask or 0, 0 if mask is None else 1, len(data))) + data
+	return bytes((
+		fmap[family],
+		len(data) * 8 if mask is None else mask,
+		0 if mask is None else 1,
+		len(data)
+	)) + data
 
 def net_unpack(data,
 	# Map IP version number to PGSQL src/include/utils/inet.h.
-- 
2.43.0


From 6182df0c18e88bdce1ae6de5380268716d994098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 55/83] fix: keep the mask of an inet (P14)

---
 postgresql/types/io/pg_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..2866600 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,9 +8,10 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	mask = a.network.prefixlen
+	return pack((a.version, None if mask == a.max_prefixlen else mask, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
@@ -18,7 +19,11 @@ def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask != a.max_prefixlen:
+		# a host in a network
+		return ipaddress.ip_interface((data, mask))
+	return a
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From e16d45bd97a0b94852ad3081968d5b252f76132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 56/83] fix: send and read a numeric that is not a number (P14)

---
 postgresql/types/io/stdlib_decimal.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..fe19a57 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,13 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# signs of the special values; 0xC000, 0xD000, 0xF000
+numeric_nan = -16384
+numeric_specials = {
+	numeric_nan : Decimal('NaN'),
+	-12288 : Decimal('Infinity'),
+	-4096 : Decimal('-Infinity'),
+}
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -41,6 +48,8 @@ def numeric_pack(x,
 	x = x.as_tuple()
 	if x.exponent == 'F':
 		raise ValueError("numeric does not support infinite values")
+	elif x.exponent in ('n', 'N'):
+		return pack(((0, 0, numeric_nan, 0), ()))
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +157,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in numeric_specials:
+		return numeric_specials[header[2]]
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From 4cfdcf5f1a9a26e03874e3bfc40bcc1d9199cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 57/83] fix: refuse a MAC address with missing or excess digits
 (P14)

---
 postgresql/types/io/lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index c88ecad..29a2cf1 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -333,8 +333,10 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
-		raise ValueError('data string cannot be parsed to bytes')
+	separate = 6 in (len(colon_parts), len(dash_parts))
+	for p in mac_parts:
+		if len(p) != 2 and not (separate and len(p) == 1):
+			raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
 def macaddr_unpack(data):
-- 
2.43.0


From e2fb6bbf79d6b66d77d142adb7b6d5a3a234a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 58/83] fix: round the microseconds of a floating point time
 (P14)

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 29a2cf1..9e16120 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -76,7 +76,10 @@ date_pack, date_unpack = long_pack, long_unpack
 def mktimetuple(ts, floor = floor):
 	'make a pair of (seconds, microseconds) out of the given double'
 	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	seconds, microseconds = int(seconds), int(round(1000000 * (ts - seconds)))
+	if microseconds == 1000000:
+		seconds, microseconds = seconds + 1, 0
+	return (seconds, microseconds)
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
-- 
2.43.0


From ac6004a3dcfb7df78405bccd7790344c4cf74765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 59/83] fix: read a bit of a bit string (P14)

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..d30e37d 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -63,7 +63,7 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
-- 
2.43.0


From 5ddf2b3341fbcf41ea16bba861c90cffdfff7a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 60/83] fix: name the Python type of every I/O routine, so that
 the types of a statement can be asked for (P14)

---
 postgresql/driver/pq3.py              | 2 +-
 postgresql/types/io/contrib_hstore.py | 2 +-
 postgresql/types/io/pg_system.py      | 8 ++++----
 postgresql/types/io/stdlib_uuid.py    | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b4f1824..94a2093 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -497,7 +497,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 9279863..0689f84 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -41,7 +41,7 @@ def hstore_factory(oid, typio,
 			raise ValueError(unpack_err(n, len(r)))
 		return r
 
-	return (pack_hstore, unpack_hstore)
+	return (pack_hstore, unpack_hstore, dict)
 
 oid_to_io = {
 	'contrib_hstore' : hstore_factory,
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From b69369396c40e2fa6d2d9319bd03c0ac76fd96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:02 +0000
Subject: [PATCH 61/83] fix: give the Python type of hstore apart from its
 factory, which gives a pair (P14)

---
 postgresql/types/io/contrib_hstore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 0689f84..6908f8c 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -41,8 +41,11 @@ def hstore_factory(oid, typio,
 			raise ValueError(unpack_err(n, len(r)))
 		return r
 
-	return (pack_hstore, unpack_hstore, dict)
+	return (pack_hstore, unpack_hstore)
+
+def hstore_io(oid, typio):
+	return hstore_factory(oid, typio) + (dict,)
 
 oid_to_io = {
-	'contrib_hstore' : hstore_factory,
+	'contrib_hstore' : hstore_io,
 }
-- 
2.43.0


From 04e75afc78bb4cbf709fc2b85c1d02e700ea0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 62/83] fix: fail a COPY that is left before the end of its
 data, also when it could be realigned (P17)

---
 postgresql/copyman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 30c232c..514b8c9 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -709,6 +709,9 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# The end of the data must have been seen by the operation itself;
+		# the realignment below ends as well.
+		completed = self._seen_stop_iteration
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -742,7 +745,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if typ or exit_faults or profail or not completed:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0


From f5a7822ee27949c8e7cfc84e31551f2cb8cf95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 63/83] fix: take the message type for an unsigned octet, a
 type of 128 or more read before the tuple of types (P15)

---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From 150a6b12f4dededcd335b8467132a1c7587d9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 64/83] fix: give the ValueError of a malformed message in the
 C buffer's read, and check its tuple (P15)

---
 postgresql/port/_optimized/buffer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 5688497..9c81ac1 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -417,9 +417,13 @@ p_read(PyObject *self, PyObject *args)
 	p.offset = pb->position.offset;
 
 	msg_in = p_length(self);
+	if (msg_in < 0)
+		return(NULL);
 	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
 
 	rob = PyTuple_New(msg_count);
+	if (rob == NULL)
+		return(NULL);
 	for (cur_msg = 0; cur_msg < msg_count; ++cur_msg)
 	{
 		PyObject *msg_tup = NULL;
-- 
2.43.0


From 2555aa4d8cfcd11f9d47214293db89a7089f2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 65/83] fix: check the allocation of C buffers and wire states
 (P15)

---
 postgresql/port/_optimized/buffer.c    | 2 ++
 postgresql/port/_optimized/wirestate.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 9c81ac1..d41aac6 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -88,6 +88,8 @@ p_new(PyTypeObject *subtype, PyObject *args, PyObject *kw)
 		return(NULL);
 
 	rob = subtype->tp_alloc(subtype, 0);
+	if (rob == NULL)
+		return(NULL);
 	pb = ((struct p_buffer *) rob);
 	pb->last = pb->position.list = NULL;
 	pb->position.offset = 0;
diff --git a/postgresql/port/_optimized/wirestate.c b/postgresql/port/_optimized/wirestate.c
index 74a9aca..4db960d 100644
--- a/postgresql/port/_optimized/wirestate.c
+++ b/postgresql/port/_optimized/wirestate.c
@@ -32,6 +32,8 @@ ws_new(PyTypeObject *subtype, PyObject *args, PyObject *kw)
 		return(NULL);
 
 	rob = subtype->tp_alloc(subtype, 0);
+	if (rob == NULL)
+		return(NULL);
 	ws = ((struct wirestate *) rob);
 
 	ws->continuation = -1;
-- 
2.43.0


From c3289466b5a9954dbabf9726d330743bfcc5fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 66/83] fix: fail an update of the C wire state when the final
 view cannot be made (P15)

---
 postgresql/port/_optimized/wirestate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/port/_optimized/wirestate.c b/postgresql/port/_optimized/wirestate.c
index 4db960d..7595dcc 100644
--- a/postgresql/port/_optimized/wirestate.c
+++ b/postgresql/port/_optimized/wirestate.c
@@ -150,6 +150,8 @@ ws_update(PyObject *self, PyObject *view)
 		if (CONDITION(msgtype))
 		{
 			final_view = PySequence_GetSlice(view, position, len);
+			if (final_view == NULL)
+				return(NULL);
 			break;
 		}
 
-- 
2.43.0


From 0646ef671e6576aad84a9b369e79f576bf686bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 67/83] fix: check the tuples of the C process_tuple, and
 release the cause when its handler cannot be called (P15)

---
 postgresql/port/_optimized/functools.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 9a0deea..50126cf 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -52,6 +52,8 @@ _process_tuple(PyObject *procs, PyObject *tup, PyObject *fail)
 	}
 	/* types check out; consistent sizes */
 	rob = PyTuple_New(len);
+	if (rob == NULL)
+		return(NULL);
 
 	for (i = 0; i < len; ++i)
 	{
@@ -79,6 +81,11 @@ _process_tuple(PyObject *procs, PyObject *tup, PyObject *fail)
 		 * Temp tuple for applying *args to p.
 		 */
 		ot = PyTuple_New(1);
+		if (ot == NULL)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 		PyTuple_SET_ITEM(ot, 0, o);
 		Py_INCREF(o);
 
@@ -144,8 +151,11 @@ _process_tuple(PyObject *procs, PyObject *tup, PyObject *fail)
 					else
 					{
 						Py_DECREF(failedat);
+						Py_XDECREF(cause);
 					}
 				}
+				else
+					Py_XDECREF(cause);
 			}
 
 			/*
-- 
2.43.0


From ee6a7d419567a29753400cb7342b8845a6adb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 68/83] fix: check what the C compose makes and gets before
 using it (P15)

---
 postgresql/port/_optimized/functools.c | 51 ++++++++++++++++++--------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 50126cf..67135fb 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -283,6 +283,26 @@ rsetattr(PyObject *self, PyObject *args)
 	return(ob);
 }
 
+/*
+ * Call `x` with `arg`; the reference to `arg` is given up.
+ */
+static PyObject *
+_compose_call(PyObject *x, PyObject *arg)
+{
+	PyObject *rob, *argt;
+
+	argt = PyTuple_New(1);
+	if (argt == NULL)
+	{
+		Py_DECREF(arg);
+		return(NULL);
+	}
+	PyTuple_SET_ITEM(argt, 0, arg);
+	rob = PyObject_CallObject(x, argt);
+	Py_DECREF(argt);
+	return(rob);
+}
+
 /*
  * Override the functools.Composition __call__.
  */
@@ -290,36 +310,30 @@ static PyObject *
 compose(PyObject *self, PyObject *args)
 {
 	Py_ssize_t i, len;
-	PyObject *rob, *argt, *seq, *x;
+	PyObject *rob, *seq, *x;
 
 	if (!PyArg_ParseTuple(args, "OO", &seq, &rob))
 		return(NULL);
 
 	Py_INCREF(rob);
-	if (PyObject_IsInstance(seq, (PyObject *) &PyTuple_Type))
+	if (PyTuple_Check(seq))
 	{
 		len = PyTuple_GET_SIZE(seq);
 		for (i = 0; i < len; ++i)
 		{
 			x = PyTuple_GET_ITEM(seq, i);
-			argt = PyTuple_New(1);
-			PyTuple_SET_ITEM(argt, 0, rob);
-			rob = PyObject_CallObject(x, argt);
-			Py_DECREF(argt);
+			rob = _compose_call(x, rob);
 			if (rob == NULL)
 				break;
 		}
 	}
-	else if (PyObject_IsInstance(seq, (PyObject *) &PyList_Type))
+	else if (PyList_Check(seq))
 	{
 		len = PyList_GET_SIZE(seq);
 		for (i = 0; i < len; ++i)
 		{
 			x = PyList_GET_ITEM(seq, i);
-			argt = PyTuple_New(1);
-			PyTuple_SET_ITEM(argt, 0, rob);
-			rob = PyObject_CallObject(x, argt);
-			Py_DECREF(argt);
+			rob = _compose_call(x, rob);
 			if (rob == NULL)
 				break;
 		}
@@ -330,14 +344,21 @@ compose(PyObject *self, PyObject *args)
 		 * Arbitrary sequence.
 		 */
 		len = PySequence_Length(seq);
+		if (len < 0)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 		for (i = 0; i < len; ++i)
 		{
 			x = PySequence_GetItem(seq, i);
-			argt = PyTuple_New(1);
-			PyTuple_SET_ITEM(argt, 0, rob);
-			rob = PyObject_CallObject(x, argt);
+			if (x == NULL)
+			{
+				Py_DECREF(rob);
+				return(NULL);
+			}
+			rob = _compose_call(x, rob);
 			Py_DECREF(x);
-			Py_DECREF(argt);
 			if (rob == NULL)
 				break;
 		}
-- 
2.43.0


From 84ada48518d2b079eb2b7a2c1bb8ecedd740b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 69/83] fix: fail the C pack_tuple_data for attributes too
 great, release what serialize() gave, copy the whole type (P15)

---
 postgresql/port/_optimized/element3.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 7ea2b82..c87daf2 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -89,9 +89,11 @@ _pack_tuple_data(PyObject *tup)
 			if (size > 0xFFFFFFFE)
 			{
 				PyErr_Format(PyExc_OverflowError,
-					"data size of %d is greater than attribute capacity",
-					catt
+					"data size of %zd is greater than attribute capacity",
+					size
 				);
+				free(buf);
+				return(NULL);
 			}
 			msg_size = local_ntohl((uint32_t) size);
 			Py_MEMCPY(bufpos, &msg_size, 4);
@@ -601,6 +603,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 					PyObject_TypeName(ob),
 					PyObject_TypeName(serialized)
 				);
+				Py_DECREF(serialized);
 				goto fail;
 			}
 
@@ -651,7 +654,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 			/*
 			 * All necessary information acquired, so fill in the message's data.
 			 */
-			buf[bufpos] = *(PyBytes_AS_STRING(msg_type));
+			Py_MEMCPY(buf + bufpos, PyBytes_AS_STRING(msg_type), msg_type_size);
 			msg_length = PyBytes_GET_SIZE(serialized);
 			INCMSGSIZE(msg_length, 4);
 			msg_length = local_ntohl(msg_length);
-- 
2.43.0


From 468b72bdb6fcf9b576afc6974eaa8f9ff0557c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 70/83] fix: check what the start of the C module makes (P15)

---
 postgresql/port/_optimized/module.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/module.c b/postgresql/port/_optimized/module.c
index 33f6875..a239a51 100644
--- a/postgresql/port/_optimized/module.c
+++ b/postgresql/port/_optimized/module.c
@@ -123,7 +123,14 @@ PyInit_optimized(void)
 	 * Get the message_types tuple to type "instantiation".
 	 */
 	fromlist = PyList_New(1);
+	if (fromlist == NULL)
+		goto cleanup;
 	fromstr = PyUnicode_FromString("message_types");
+	if (fromstr == NULL)
+	{
+		Py_DECREF(fromlist);
+		goto cleanup;
+	}
 	PyList_SetItem(fromlist, 0, fromstr);
 	msgtypes = PyImport_ImportModuleLevel(
 		"protocol.message_types",
@@ -136,8 +143,10 @@ PyInit_optimized(void)
 		goto cleanup;
 	message_types = PyObject_GetAttrString(msgtypes, "message_types");
 	Py_DECREF(msgtypes);
+	if (message_types == NULL)
+		goto cleanup;
 
-	if (!PyObject_IsInstance(message_types, (PyObject *) (&PyTuple_Type)))
+	if (!PyTuple_Check(message_types))
 	{
 		PyErr_SetString(PyExc_RuntimeError,
 			"local protocol.message_types.message_types is not a tuple object");
-- 
2.43.0


From f048b5e0b87a76dfff8e4ea1547ed7aff70df868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 71/83] fix: refuse messages whose size the C cat_messages
 cannot say, instead of framing them with a smaller one (P16)

---
 postgresql/port/_optimized/element3.c | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index c87daf2..c33a239 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -311,11 +311,10 @@ pack_tuple_data(PyObject *self, PyObject *tup)
 } while(0)
 
 #define INCMSGSIZE(XVAR, AMT) do { \
-	uint32_t _amt_ = AMT; \
-	uint32_t _newsize_ = XVAR + _amt_; \
-	if (_newsize_ >= XVAR) XVAR = _newsize_; else { \
+	size_t _amt_ = AMT; \
+	if (_amt_ <= 0xFFFFFFFFU - XVAR) XVAR = XVAR + (uint32_t) _amt_; else { \
 		PyErr_Format(PyExc_OverflowError, \
-			"message size too large, was %u bytes, but could not add %u more", XVAR, _amt_); \
+			"message size too large, was %u bytes, but could not add %zu more", XVAR, _amt_); \
 		goto fail; } \
 } while(0)
 
@@ -413,9 +412,10 @@ cat_messages(PyObject *self, PyObject *messages_in)
 				buf[bufpos] = 'd'; /* COPY data message type */
 
 				ob = PyList_GET_ITEM(msgs, cmsg);
-				INCMSGSIZE(msg_length, (uint32_t) PyBytes_GET_SIZE(ob) + 4);
+				INCMSGSIZE(msg_length, PyBytes_GET_SIZE(ob));
+				INCMSGSIZE(msg_length, 4);
 
-				INCSIZET(bufpos, 1 + msg_length);
+				INCSIZET(bufpos, 1 + (size_t) msg_length);
 				msg_length = local_ntohl(msg_length);
 				Py_MEMCPY(localbuf, &msg_length, 4);
 				Py_MEMCPY(localbuf + 4, PyBytes_AS_STRING(ob), PyBytes_GET_SIZE(ob));
@@ -562,7 +562,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 						Py_MEMCPY(localbuf, PyBytes_AS_STRING(att), attsize);
 						localbuf = localbuf + attsize;
 
-						INCSIZET(msg_length, attsize);
+						INCMSGSIZE(msg_length, attsize);
 					}
 				}
 
@@ -576,7 +576,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 				 * Filled in the data while summing the message size, so
 				 * adjust the buffer position for the next message.
 				 */
-				INCSIZET(bufpos, 1 + msg_length);
+				INCSIZET(bufpos, 1 + (size_t) msg_length);
 				++cmsg;
 			}
 		}
@@ -607,6 +607,16 @@ cat_messages(PyObject *self, PyObject *messages_in)
 				goto fail;
 			}
 
+			if (PyBytes_GET_SIZE(serialized) > 0xFFFFFFFFLL - 4)
+			{
+				PyErr_Format(PyExc_OverflowError,
+					"message size too large, %zd bytes",
+					PyBytes_GET_SIZE(serialized)
+				);
+				Py_DECREF(serialized);
+				goto fail;
+			}
+
 			msg_type = PyObject_GetAttr(ob, msgtype_strob);
 			if (msg_type == NULL)
 			{
@@ -655,9 +665,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 			 * All necessary information acquired, so fill in the message's data.
 			 */
 			Py_MEMCPY(buf + bufpos, PyBytes_AS_STRING(msg_type), msg_type_size);
-			msg_length = PyBytes_GET_SIZE(serialized);
-			INCMSGSIZE(msg_length, 4);
-			msg_length = local_ntohl(msg_length);
+			msg_length = local_ntohl((uint32_t) PyBytes_GET_SIZE(serialized) + 4);
 			Py_MEMCPY(buf + bufpos + msg_type_size, &msg_length, 4);
 			Py_MEMCPY(
 				buf + bufpos + 4 + msg_type_size,
-- 
2.43.0


From ce3f5c6f9d05a6e9fa6173338a20d7fd06d1069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 72/83] fix: take any buffer in the C swap_int8_unpack as its
 twins do (P16)

---
 postgresql/port/_optimized/structlib.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/postgresql/port/_optimized/structlib.c b/postgresql/port/_optimized/structlib.c
index 21ae145..4a03eab 100644
--- a/postgresql/port/_optimized/structlib.c
+++ b/postgresql/port/_optimized/structlib.c
@@ -579,10 +579,6 @@ swap_int8_unpack(PyObject *self, PyObject *arg)
 	Py_ssize_t len;
 	PY_LONG_LONG i;
 
-	c = PyBytes_AsString(arg);
-	if (PyErr_Occurred())
-		return(NULL);
-
 	if (PyObject_AsReadBuffer(arg, (const void **) &c, &len))
 		return(NULL);
 	if (len < 8)
-- 
2.43.0


From f3dc88210c7efa241da6855ae9e9f5f40ae81a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:12 +0000
Subject: [PATCH 73/83] fix: refuse malformed rows in the Python Tuple.parse as
 its C twin does (P16)

---
 postgresql/protocol/element3.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 472c886..27374e3 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -501,9 +501,17 @@ class Tuple(TupleMessage):
 				al = ulong_unpack(size)
 				ao = offset
 				offset = ao + al
+				if offset > len(data):
+					raise ValueError("attribute %d has invalid size %d" %(len(atts), al))
 				att = data[ao:offset]
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError(
+				"invalid tuple(D) message, %d remaining bytes after processing %d attributes" %(
+					len(data) - offset, len(atts)
+				)
+			)
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From 9a56168ea25ec4b0e019ae662105a86fa214f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:32 +0000
Subject: [PATCH 74/83] fix: yield the settings taken from the environment
 variables instead of dropping them (P20)

---
 postgresql/clientparameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 63d4d6f..747459d 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v,), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From adf6827a5e3c4d54f93accd58befb415ad7447b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:32 +0000
Subject: [PATCH 75/83] fix: make PGREQUIRESSL=1 set sslmode to 'require', not
 to a pair (P20)

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 747459d..51fca43 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
-- 
2.43.0


From 7cc694c6344eb7e5a42bc836518fc9b161f3c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 76/83] fix: do not assign to the items of a tuple in
 normalize_parameter (P20)

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 51fca43..f8f4a5f 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -548,10 +548,10 @@ def normalize_parameter(kv):
 	"""
 	(k, v) = kv
 	if k[0] == 'requiressl' and v in ('1', True):
-		k[0] = 'sslmode'
+		k = ('sslmode',)
 		v = 'require'
 	elif k[0] == 'dbname':
-		k[0] = 'database'
+		k = ('database',)
 	elif k[0] == 'sslmode':
 		v = v.lower()
 	return (tuple(k),v)
-- 
2.43.0


From aace7a988bdafe4dc608f084f0275d47568eb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 77/83] fix: default the user to 'postgres' when the system
 names none (P20)

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index f8f4a5f..5bbec95 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -130,7 +130,7 @@ def defaults(environ = os.environ):
 	user = getuser() or 'postgres'
 	userdir = os.path.expanduser('~' + user) or '/dev/null'
 	pgdata = os.path.join(userdir, pg_home_directory)
-	yield ('user',), getuser()
+	yield ('user',), user
 	yield ('host',), default_host
 	yield ('port',), default_port
 
-- 
2.43.0


From b1ba82147784100e769b7134356505238ec10e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 78/83] fix: show the prompt title given to resolve_password
 (P20)

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5bbec95..66cbae9 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -391,11 +391,11 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	default_title = parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title or default_title or ''
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
-- 
2.43.0


From d6eba2ea9d0d4513c9f40a3ad2db19e2476e91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 79/83] fix: let a unix socket on the command line replace the
 default host and port (P20)

---
 postgresql/clientparameters.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 66cbae9..bfa832f 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -629,6 +629,19 @@ def collect(
 		d_parameters.append(cop)
 
 	cpd = normalize(extrapolate(chain(*d_parameters)))
+	if cop:
+		# An address on the command line replaces the other kind of
+		# address of the less specific sources.
+		given = normalize(extrapolate(cop))
+		if 'unix' in given:
+			others = ('host', 'port')
+		elif 'host' in given:
+			others = ('unix',)
+		else:
+			others = ()
+		for k in others:
+			if k not in given:
+				cpd.pop(k, None)
 	if prompt_title is not None:
 		resolve_password(cpd, prompt_title = prompt_title)
 	return cpd
-- 
2.43.0


From 5d9e315433969d6b3d59dd554497c9b5be46b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:45 +0000
Subject: [PATCH 80/83] fix: escape the database and the path in an IRI, and
 decode them (P21)

---
 postgresql/iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..f321e2b 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,8 +55,8 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
-		path = path[1:]
+			cpd['database'] = fieldproc(path[0])
+		path = [fieldproc(x) for x in path[1:]]
 		if path:
 			cpd['path'] = path
 
@@ -158,7 +158,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From d3c89aae59f1fc8084fc6f5aa0657adbf5eca24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:45 +0000
Subject: [PATCH 81/83] fix: do not let the path of an IRI without a database
 become the database (P21)

---
 postgresql/iri.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index f321e2b..1b46c30 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -133,8 +133,11 @@ def construct(x, obscure_password = False):
 	path = []
 	if 'database' in x:
 		path.append(x['database'])
-	if 'path' in x:
-		path.extend(x['path'] or ())
+	if x.get('path'):
+		if not path:
+			# the first one is the database
+			path.append('')
+		path.extend(x['path'])
 
 	password = x.get('password')
 	if obscure_password and password is not None:
-- 
2.43.0


From 1ee46c00e76075b600d2b0ee3437178b5e271684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:45 +0000
Subject: [PATCH 82/83] fix: decode the host within brackets of an IRI (P21)

---
 postgresql/iri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 1b46c30..78f7d3c 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -44,7 +44,7 @@ def structure(d, fieldproc = ri.unescape):
 
 	if host is not None:
 		if host.startswith('[') and host.endswith(']'):
-			host = host[1:-1]
+			host = fieldproc(host[1:-1])
 			if host.startswith('unix:'):
 				cpd['unix'] = host[len('unix:'):].replace(':','/')
 			else:
-- 
2.43.0


From c45564892c121581eca51ae3a6685a5181f2c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:46 +0000
Subject: [PATCH 83/83] fix: escape '@' in the host of an IRI (P21)

---
 postgresql/resolved/riparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..7da8aa2 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,7 +47,7 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
-- 
2.43.0

