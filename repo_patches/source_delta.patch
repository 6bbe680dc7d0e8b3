From f6eeb92518294dcdcbd55d80670b6d07e8741480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 1/9] fix: client checks the Connection header of the response,
 not of its own request

---
 src/client/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..eff5f7d 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,12 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrade_option = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		let connection_is_upgrade = match response.headers.get() {
+			Some(&Connection(ref options)) => options.contains(&upgrade_option),
+			None => false,
+		};
+		if !connection_is_upgrade {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From 416e03fc43b9a34ae0d0880751f90be18ba2bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 2/9] fix: blocking client enforces the configured maximum
 message size

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index eff5f7d..cb34e0e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From cfd07bf810367440d09e50352806705406ebeefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 3/9] fix: parse the values of WebSocket extension parameters

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 8c54cc6b75c199df91a09e0ef2a353885c217ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 4/9] fix: Masker keeps its key position in step with partial
 writes

---
 websocket-base/src/ws/util/mask.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..db396cf 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,13 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
-		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+		for (i, &byte) in data.iter().enumerate() {
+			buf.push(byte ^ self.key[(self.pos + i) % self.key.len()]);
 		}
-		self.end.write(&buf)
+		// only advance past what was accepted, the rest will be written again
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From b1570717cbddb6f3b6b60fc1e57d897a59fb5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 5/9] fix: do not allocate the announced payload length before
 the payload arrives

---
 websocket-base/src/dataframe.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..0cb6a3f 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -6,6 +6,10 @@ use crate::ws::util::header::DataFrameHeader;
 use crate::ws::util::mask;
 use std::io::{self, Read, Write};
 
+/// The length in a header is not trustworthy until the payload has arrived,
+/// so never reserve more than this much memory because of it.
+const MAX_PREALLOCATION: u64 = 64 * 1024;
+
 /// Represents a WebSocket data frame.
 ///
 /// The data held in a DataFrame is never masked.
@@ -88,7 +92,7 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
@@ -107,7 +111,7 @@ impl DataFrame {
 		if header.len > limit as u64 {
 			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From efeb59282dfdd2fa48245062bdabc407c6b9d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 6/9] fix: blocking receiver accepts no continuation once the
 message limit is exceeded

---
 src/receiver.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..144d8f4 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -147,6 +147,17 @@ impl ws::Receiver for Receiver {
 		};
 
 		while !finished {
+			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded count of data frames in one WebSocket message",
+				));
+			}
+			if current_message_length >= self.max_message_size as usize {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
+
 			let next = self.recv_dataframe(reader)?;
 			finished = next.finished;
 
@@ -167,19 +178,6 @@ impl ws::Receiver for Receiver {
 					));
 				}
 			}
-
-			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
-			}
 		}
 
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
-- 
2.43.0


From 9fd23afebf712c21e4105a1c3f76973717ecc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 7/9] fix: async HTTP codecs report a head with too many
 headers instead of dropping it

---
 src/codec/http.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..bdc5fed 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -101,7 +101,6 @@ impl Decoder for HttpClientCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -195,7 +194,6 @@ impl Decoder for HttpServerCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From 1069ef61e2a1e94c64a2259a8c2488474c16d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 8/9] fix: send the ports 80 and 443 in Host where the scheme
 has another default

---
 src/client/builder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index cb34e0e..ae00165 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -844,10 +844,17 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			match self.url.port() {
+				// hyper leaves these ports out, but they are not the default of this scheme
+				Some(port @ 80) | Some(port @ 443) => {
+					self.headers
+						.set_raw("Host", vec![format!("{}:{}", host, port).into_bytes()]);
+				}
+				port => self.headers.set(Host {
+					hostname: host.to_string(),
+					port,
+				}),
+			}
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From ecc42f5a809e26c22d06c3f40b7905c02a532618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:00 +0000
Subject: [PATCH 9/9] fix: report a close frame with a one-byte body as a
 protocol error, not as NoDataAvailable

---
 websocket-base/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket-base/src/message.rs b/websocket-base/src/message.rs
index 8a5be38..cba7613 100644
--- a/websocket-base/src/message.rs
+++ b/websocket-base/src/message.rs
@@ -228,6 +228,11 @@ impl<'a> ws::Message for Message<'a> {
 			},
 			Some(Opcode::Binary) => Message::binary(data),
 			Some(Opcode::Close) => {
+				if data.len() == 1 {
+					return Err(WebSocketError::ProtocolError(
+						"Close payload too short for a status code",
+					));
+				}
 				if !data.is_empty() {
 					let status_code = (&data[..]).read_u16::<BigEndian>()?;
 					let reason = bytes_to_string(&data[2..])?;
-- 
2.43.0

