From 51402dc3eaf4ae25c33878e587ebe23c66fabf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 01/14] fix: pass the configured message size limit to blocking
 client connections

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 7dbf11604f0800570ff209602c1f61d7282b40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 02/14] fix: keep the mask in step with the bytes written when
 the writer is short

---
 websocket-base/src/ws/util/mask.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..c4d1934 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,13 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
-		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+		for (i, &byte) in data.iter().enumerate() {
+			buf.push(byte ^ self.key[(self.pos + i) % self.key.len()]);
 		}
-		self.end.write(&buf)
+		// only advance the key stream past the bytes that were really written
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From b099e70ff6c955dd68e323c4247d28945f8e5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 03/14] fix: do not allocate the payload length a peer merely
 announces

---
 websocket-base/src/dataframe.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..1dda75a 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -4,8 +4,12 @@ use crate::ws::dataframe::DataFrame as DataFrameable;
 use crate::ws::util::header as dfh;
 use crate::ws::util::header::DataFrameHeader;
 use crate::ws::util::mask;
+use std::cmp;
 use std::io::{self, Read, Write};
 
+/// How much to allocate for a payload that has only been announced so far
+const MAX_PREALLOCATION: u64 = 64 * 1024;
+
 /// Represents a WebSocket data frame.
 ///
 /// The data held in a DataFrame is never masked.
@@ -88,7 +92,7 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(cmp::min(header.len, MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
@@ -107,7 +111,7 @@ impl DataFrame {
 		if header.len > limit as u64 {
 			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(cmp::min(header.len, MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From 556e5e8ef88e53bc80f61dd40d821a76ae4b3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 04/14] fix: check the Connection header of the response, not
 of the request

---
 src/client/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..f77b7d6 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,12 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		if !response
+			.headers
+			.get::<Connection>()
+			.map_or(false, |c| c.contains(&upgrade))
+		{
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From fb0d43293cafed86589c8748e8ba66f96d28c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 05/14] fix: split extension parameters into name and value

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 680a43e07bb186dcb4f1a1127b006927f8202dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 06/14] fix: report a one byte close payload as a protocol
 error

---
 websocket-base/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket-base/src/message.rs b/websocket-base/src/message.rs
index 8a5be38..05028dc 100644
--- a/websocket-base/src/message.rs
+++ b/websocket-base/src/message.rs
@@ -228,6 +228,11 @@ impl<'a> ws::Message for Message<'a> {
 			},
 			Some(Opcode::Binary) => Message::binary(data),
 			Some(Opcode::Close) => {
+				if data.len() == 1 {
+					return Err(WebSocketError::ProtocolError(
+						"Close frame payload is too short for a status code",
+					));
+				}
 				if !data.is_empty() {
 					let status_code = (&data[..]).read_u16::<BigEndian>()?;
 					let reason = bytes_to_string(&data[2..])?;
-- 
2.43.0


From fb48ddf54b0598864f9cd75e1d9d9a16693a6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 07/14] fix: refuse upgrade requests whose version header
 cannot be read

---
 src/server/upgrade/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..7e9890f 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,10 +263,11 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
-		}
+	match headers.get::<WebSocketVersion>() {
+		Some(&WebSocketVersion::WebSocket13) => (),
+		// only a missing header is tolerated, not an unreadable one
+		None if !headers.has::<WebSocketVersion>() => (),
+		_ => return Err(HyperIntoWsError::UnsupportedWebsocketVersion),
 	}
 
 	if headers.get::<WebSocketKey>().is_none() {
-- 
2.43.0


From 59e5ff074f5cb1a58e69a6fc87a2c87b1feaf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 08/14] fix: count the per-frame overhead of frames received by
 earlier calls

---
 src/receiver.rs                | 6 +++++-
 websocket-base/src/codec/ws.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..c89dbdb 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -128,7 +128,11 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length: usize = self
+			.buffer
+			.iter()
+			.map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD)
+			.sum();
 		let mut finished = if self.buffer.is_empty() {
 			let first = self.recv_dataframe(reader)?;
 
diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index c28e8b9..954b394 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -276,7 +276,11 @@ where
 	type Error = WebSocketError;
 
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length: usize = self
+			.buffer
+			.iter()
+			.map(|x| x.data.len() + PER_DATAFRAME_OVERHEAD)
+			.sum();
 		while let Some(frame) = self.dataframe_codec.decode(src)? {
 			let is_first = self.buffer.is_empty();
 			let finished = frame.finished;
-- 
2.43.0


From 8e2ac5e24cb8d01f12609e914baf72765ca35f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 09/14] fix: apply the message size limit to the first data
 frame too

---
 src/receiver.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index c89dbdb..a9209e4 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -108,6 +108,21 @@ impl Receiver {
 			max_message_size,
 		}
 	}
+
+	/// Checks that the data frames of an unfinished message may be followed by another one.
+	fn check_message_limits(&self, current_message_length: usize) -> WebSocketResult<()> {
+		if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+			return Err(WebSocketError::ProtocolError(
+				"Exceeded count of data frames in one WebSocket message",
+			));
+		}
+		if current_message_length >= self.max_message_size as usize {
+			return Err(WebSocketError::ProtocolError(
+				"Exceeded maximum WebSocket message size",
+			));
+		}
+		Ok(())
+	}
 }
 
 impl ws::Receiver for Receiver {
@@ -145,6 +160,9 @@ impl ws::Receiver for Receiver {
 			let finished = first.finished;
 			current_message_length += first.data.len() + PER_DATAFRAME_OVERHEAD;
 			self.buffer.push(first);
+			if !finished {
+				self.check_message_limits(current_message_length)?;
+			}
 			finished
 		} else {
 			false
@@ -173,16 +191,7 @@ impl ws::Receiver for Receiver {
 			}
 
 			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
+				self.check_message_limits(current_message_length)?;
 			}
 		}
 
-- 
2.43.0


From 99a9d00e85bf0604d5eabc0da098456997374803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 10/14] fix: decode HTTP heads without discarding or
 over-consuming input

The codecs looked for a blank line on their own and threw away what the
parser then refused or found incomplete: heads with too many headers were
dropped silently, blank lines before a head swallowed input, and a head
ended by bare line feeds took the bytes behind it with it. Let the parser
decide where the head ends.
---
 src/codec/http.rs | 54 ++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..2a48f5d 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -62,10 +62,24 @@ use tokio_codec::{Decoder, Encoder};
 ///```
 pub struct HttpClientCodec;
 
-fn split_off_http(src: &mut BytesMut) -> Option<BytesMut> {
-	match src.windows(4).position(|i| i == b"\r\n\r\n") {
-		Some(p) => Some(src.split_to(p + 4)),
-		None => None,
+/// Parses one HTTP head off the front of `src`, consuming exactly its bytes.
+/// Nothing is consumed as long as the head is incomplete.
+fn decode_head<T, F>(src: &mut BytesMut, parse: F) -> Result<Option<T>, HttpCodecError>
+where
+	F: FnOnce(&mut BufReader<&[u8]>) -> hyper::Result<T>,
+{
+	let (res, unread) = {
+		let mut reader = BufReader::with_capacity(&src[..], src.len());
+		(parse(&mut reader), reader.get_buf().len())
+	};
+	match res {
+		Ok(head) => {
+			let head_len = src.len() - unread;
+			let _ = src.split_to(head_len);
+			Ok(Some(head))
+		}
+		Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(None),
+		Err(e) => Err(e.into()),
 	}
 }
 
@@ -94,21 +108,7 @@ impl Decoder for HttpClientCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_response(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
-			}
-			None => Ok(None),
-		}
+		decode_head(src, |reader| parse_response(reader))
 	}
 }
 
@@ -188,21 +188,7 @@ impl Decoder for HttpServerCodec {
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
 		// check if we get a request from hyper
 		// TODO: this is ineffecient, but hyper does not give us a better way to parse
-		match split_off_http(src) {
-			Some(buf) => {
-				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
-				let res = match parse_request(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
-					Err(e) => return Err(e.into()),
-					Ok(r) => r,
-				};
-				Ok(Some(res))
-			}
-			None => Ok(None),
-		}
+		decode_head(src, |reader| parse_request(reader))
 	}
 }
 
-- 
2.43.0


From bc0ca7406330e693442bb7d43eb5d640da1d6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 11/14] fix: name the port in the Host header unless it is the
 scheme's default

---
 src/client/builder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f77b7d6..a7f36e0 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -19,7 +19,7 @@ mod common_imports {
 	pub use crate::result::{WSUrlErrorKind, WebSocketError, WebSocketOtherError, WebSocketResult};
 	pub use crate::stream::{self, Stream};
 	pub use hyper::buffer::BufReader;
-	pub use hyper::header::{Connection, ConnectionOption, Host, Protocol, ProtocolName, Upgrade};
+	pub use hyper::header::{Connection, ConnectionOption, Protocol, ProtocolName, Upgrade};
 	pub use hyper::http::h1::parse_response;
 	pub use hyper::http::h1::Incoming;
 	pub use hyper::http::RawStatus;
@@ -844,10 +844,12 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			// hyper's `Host` leaves out the ports 80 and 443 whatever the scheme
+			let host = match self.url.port() {
+				Some(port) => format!("{}:{}", host, port),
+				None => host.to_string(),
+			};
+			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From beef95036c4e7ddf7fe3b0636588bf07c7274d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 12/14] fix: decode the credentials of the URL before sending
 them

---
 src/client/builder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index a7f36e0..aecfa91 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -29,6 +29,7 @@ mod common_imports {
 	pub use std::net::TcpStream;
 	pub use std::net::ToSocketAddrs;
 	pub use unicase::UniCase;
+	pub use url::percent_encoding::percent_decode;
 	pub use url::Position;
 }
 #[cfg(any(feature = "sync", feature = "async"))]
@@ -852,14 +853,12 @@ impl<'u> ClientBuilder<'u> {
 			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
-		// handle username/password from URL
-		if !self.url.username().is_empty() {
+		// handle username/password from URL, where they are percent-encoded
+		if !self.url.username().is_empty() || self.url.password().is_some() {
+			let decode = |s: &str| percent_decode(s.as_bytes()).decode_utf8_lossy().into_owned();
 			self.headers.set(Authorization(Basic {
-				username: self.url.username().to_owned(),
-				password: match self.url.password() {
-					Some(password) => Some(password.to_owned()),
-					None => None,
-				},
+				username: decode(self.url.username()),
+				password: self.url.password().map(decode),
 			}));
 		}
 
-- 
2.43.0


From 4fa206c7fb4a64b425a89413c772564c6c766e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 13/14] fix: send a version and a key even if the configured
 one was cleared as a header

---
 src/client/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index aecfa91..81f23f2 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -872,6 +872,14 @@ impl<'u> ClientBuilder<'u> {
 			version: None,
 		}]));
 
+		// the header set may have been cleared or overwritten with something malformed
+		if self.headers.get::<WebSocketVersion>().is_none() {
+			self.version_set = false;
+		}
+		if self.headers.get::<WebSocketKey>().is_none() {
+			self.key_set = false;
+		}
+
 		if !self.version_set {
 			self.headers.set(WebSocketVersion::WebSocket13);
 		}
-- 
2.43.0


From be72725a5c9b863d673ede8e2884f5c6733d7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 14/14] fix: check the certificate of an IPv6 host for the
 address without brackets

---
 src/client/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 81f23f2..382a79e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -991,7 +991,8 @@ impl<'u> ClientBuilder<'u> {
 		connector: Option<TlsConnector>,
 	) -> WebSocketResult<(&str, TlsConnector)> {
 		let host = match self.url.host_str() {
-			Some(h) => h,
+			// an IPv6 address is in brackets in a URL, but not in a certificate
+			Some(h) => h.trim_start_matches('[').trim_end_matches(']'),
 			None => {
 				return Err(WebSocketOtherError::WebSocketUrlError(
 					WSUrlErrorKind::NoHostName,
-- 
2.43.0

