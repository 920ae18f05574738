From 03fa2e44ba96ff9d2a019eea48632b053a68a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 01/67] fix: JSON parser must not loop at the end of incomplete
 input

After the first error, reading past the end only returned zeroes, so a later attempt to read or skip
a string never ended. An integer at the very end of the input was treated as incomplete.
---
 bomba_json.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..c363de8 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -34,8 +34,7 @@ struct BasicJson {
 			if (_contents.begin() + position < _contents.end()) [[likely]]
 				return false;
 				
-			if (good) [[unlikely]]
-				endOfInput();
+			endOfInput();
 			return true;
 		}
 		
@@ -107,10 +106,10 @@ struct BasicJson {
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
+			char next = peekChar<false>();
 			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
-- 
2.43.0


From d0836bd8e49469c3989e048d6cfbd5fee29c7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 02/67] fix: JSON strings must keep newlines and other control
 characters

A newline was written as a backslash followed by a newline, which the reader dropped, other control
characters were written unescaped, which is not valid JSON. The reader dropped all escaped characters
other than quotes, backslashes and newlines.
---
 bomba_json.hpp | 69 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index c363de8..7c46f08 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -65,6 +65,50 @@ struct BasicJson {
 			}
 		}
 		
+		int readHexadecimals() {
+			int value = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				value <<= 4;
+				if (digit >= '0' && digit <= '9')
+					value += digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					value += digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					value += digit - 'A' + 10;
+				else [[unlikely]]
+					fail("Expected JSON unicode escape");
+			}
+			return value;
+		}
+
+		void readUnicodeEscape() {
+			int value = readHexadecimals();
+			if (value >= 0xd800 && value < 0xdc00 && peekChar() == '\\') { // Surrogate pair
+				getChar();
+				if (getChar() != 'u') [[unlikely]]
+					fail("Expected JSON unicode escape");
+				value = 0x10000 + ((value - 0xd800) << 10) + ((readHexadecimals() - 0xdc00) & 0x3ff);
+			}
+
+			if (value < 0x80) {
+				_resultBuffer += char(value);
+				return;
+			}
+			if (value < 0x800) {
+				_resultBuffer += char(0b11000000 + (value >> 6));
+			} else {
+				if (value < 0x10000) {
+					_resultBuffer += char(0b11100000 + (value >> 12));
+				} else {
+					_resultBuffer += char(0b11110000 + (value >> 18));
+					_resultBuffer += char(0b10000000 + ((value >> 12) & 0b00111111));
+				}
+				_resultBuffer += char(0b10000000 + ((value >> 6) & 0b00111111));
+			}
+			_resultBuffer += char(0b10000000 + (value & 0b00111111));
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -141,6 +185,18 @@ struct BasicJson {
 						_resultBuffer += '"';
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
+					else
+						_resultBuffer += readingChar;
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
@@ -291,7 +347,18 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\n') [[unlikely]] {
+					_contents += "\\n";
+					continue;
+				}
+				if (static_cast<unsigned char>(it) < 0x20) [[unlikely]] {
+					constexpr std::string_view digits = "0123456789abcdef";
+					_contents += "\\u00";
+					_contents += digits[it >> 4];
+					_contents += digits[it & 0xf];
+					continue;
+				}
+				if (it == '\\' || it == '"') [[unlikely]]
 					_contents += '\\';
 				_contents += it;
 			}
-- 
2.43.0


From 15cca38b6949c9d09d871ed9d9b69bc7b603ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 03/67] fix: long numbers overflowed the buffer they were
 written into

Many doubles need up to 24 characters and the smallest integer needs 20, leaving no space for the
terminating zero.
---
 bomba_http.hpp | 2 +-
 bomba_json.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..3028c2f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -431,7 +431,7 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Even the longest double or 64 bit integer must fit
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
diff --git a/bomba_json.hpp b/bomba_json.hpp
index 7c46f08..ae2a334 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -320,7 +320,7 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Even the longest double or 64 bit integer must fit
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
-- 
2.43.0


From f7b9e260981833e259ff203f7376e758d8ceacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 04/67] fix: skipping a JSON value must end where the value
 ends

Skipping a string ended at the first backslash in it and skipping a number, string or other simple
value at the end of an object or array also skipped the end of the object or array.
---
 bomba_json.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index ae2a334..a8aaad1 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -271,12 +271,15 @@ struct BasicJson {
 		void skipObjectElement(Flags) final override {
 			eatWhitespace();
 			int depth = 0;
+			int start = _position;
 			do {
 				char readingChar = peekChar();
 				if (readingChar == '{' || readingChar == '[') {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0 && _position > start)
+						break; // Ends the structure the skipped value is in
 					depth--;
 					getChar();
 					if (depth <= 0)
@@ -288,7 +291,10 @@ struct BasicJson {
 					getChar();
 					do {
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+						if (readingChar == '\\') {
+							getChar();
+						}
+					} while (readingChar != '"');
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From bd205ecdaf8ae885e0ccc3f518da46650745e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 05/67] fix: JSON-RPC errors must be reported also if the id is
 at the end

If the problem was found before reaching the id (unknown method, bad arguments), no response was sent.
If reading the rest of the request failed too, the error was written twice.
---
 bomba_json_rpc.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..e6d9383 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -38,7 +38,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		bool failed = false;
 		bool responding = false;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		IStructuredInput::Location start = input.storePosition(noFlags);
 
 		auto writeId = [&] {
 			responding = true;
@@ -64,7 +64,25 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			}
 		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
+			if (failed)
+				return; // Already reported
 			failed = true;
+			if (!responding) {
+				// The id may be after the problem
+				auto formerPosition = input.storePosition(noFlags);
+				try {
+					input.restorePosition(noFlags, start);
+					input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
+						if (*nextName == "id") {
+							writeId();
+							return false;
+						}
+						input.skipObjectElement(noFlags);
+						return true;
+					});
+				} catch (std::exception&) {} // The request is malformed, the id can't be found
+				input.restorePosition(noFlags, formerPosition);
+			}
 			if (!responding)
 				return;
 
-- 
2.43.0


From 028a8c2eed313c8a030da93995ae08f41c510fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 06/67] fix: JSON-RPC call of a group of methods must be
 answered with an error

The response had neither result nor error.
---
 bomba_json_rpc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e6d9383..6d54b94 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -106,12 +106,15 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					if (paramsPosition) {
 						input.restorePosition(noFlags, paramsPosition);
 					}
+					bool callable = false;
 					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
+						callable = method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
 					else {
 						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
+						callable = method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 					}
+					if (!callable) [[unlikely]] // It's only a group of methods
+						introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
 				}
 				return formerPosition;
 			};
-- 
2.43.0


From 42303951a3420808567c41e46284206a07b4b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 07/67] fix: JSON-RPC request that isn't an object or array
 must be answered once

A successful response with an empty body was sent before the 400 response.
---
 bomba_json_rpc.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 6d54b94..d207df9 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -193,15 +193,18 @@ public:
 			return false;
 		}
 
-		bool result = false;
+		auto requestType = typename Json::Input(std::string_view(request.data(), request.size())).identifyType(Json::Output::Flags::NONE);
+		if (requestType != IStructuredInput::TYPE_ARRAY && requestType != IStructuredInput::TYPE_OBJECT) [[unlikely]] {
+			return false; // The request is total nonsense
+		}
+
 		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			constexpr auto noFlags = Json::Output::Flags::NONE;
 
 			typename Json::Input input(std::string_view(request.data(), request.size()));
 			typename Json::Output output(response);
 
-			auto inputType = input.identifyType(noFlags);
-			if (inputType == IStructuredInput::TYPE_ARRAY) {
+			if (requestType == IStructuredInput::TYPE_ARRAY) {
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
 				output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
@@ -219,13 +222,11 @@ public:
 				}
 				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
+			} else {
 				respondInternal(input, output, {});
-				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return true; // Http should not report an error here
 	}
 };
 
-- 
2.43.0


From b65d7c8f84031ae792a53596cdbccc878f4b8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 08/67] fix: the synchronous client must deal with any split of
 responses

A response not received entirely at once, or received together with another one, was lost or the client
waited for it forever, so were responses whose readiness was checked. An end of the stream was an endless
loop. A response collected once stayed stored.
---
 bomba_sync_client.hpp | 57 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..7d8eb0b 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -32,39 +32,50 @@ class SyncNetworkClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				std::vector<char> response = std::move(found->second);
+				_responses.erase(found);
+				reader(response, true);
+			} else {
+				reader(found->second, true);
+			}
+			return;
 		}
 
-		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// There may be more responses in the data already received
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::DISCONNECT) {
+					remoteError("Malformed response");
+					return;
+				}
+				if (reaction == ServerReaction::WRONG_REPLY)
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				else if constexpr(!doWait) // The response will be collected later
+					_responses.insert(std::make_pair(tokenSought, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
+			// Wait for a reply if none was received before
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.available() == 0)
-					break;
+					return;
 			}
 			auto received = _socket.read_some(Net::buffer(responseBuffer), error);
-			if (error) {
-				remoteError(error.message().c_str());
-				break;
+			if (error == std::errc::interrupted)
+				continue;
+			if (error || received == 0) {
+				remoteError(error ? error.message() : "Connection closed");
+				return;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
-- 
2.43.0


From 18c11118741bdc77bebf4ddb2265570b9aa3e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 09/67] fix: the synchronous client must survive failed
 connecting and writing

Writing into a connection closed by the server or after a failed attempt to connect killed the process
with SIGPIPE, and a client that failed to connect never tried to connect again.
---
 bomba_sync_client.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 7d8eb0b..dacf44b 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -24,7 +24,13 @@ class SyncNetworkClient : public ITcpClient {
 	std::vector<char> _leftovers;
 	
 	void connect() {
-		_socket.connect(_server);
+		std::error_code error;
+		_socket.connect(_server, error);
+		if (error) {
+			std::error_code ignored;
+			_socket.close(ignored); // It would appear connected otherwise
+			remoteError(error.message());
+		}
 	}
 
 	template <bool doWait, typename Reader>
@@ -88,7 +94,15 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
+			std::error_code error;
+			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())),
+					static_cast<Net::socket_base::message_flags>(MSG_NOSIGNAL), error);
+			if (error == std::errc::interrupted)
+				continue;
+			if (error) {
+				remoteError(error.message());
+				return;
+			}
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From e5383fcc4bd6cc33849d14fcd43700c8a00becd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 10/67] fix: HTTP messages with an unusable Content-Length must
 be refused

A negative or huge length made the parser use memory outside of the message.
---
 bomba_http.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3028c2f..7c24663 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -117,7 +118,9 @@ struct HttpParseState {
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				std::from_chars_result got = std::from_chars(attributeValue.data(), attributeValue.data() + attributeValue.size(), bodySize);
+				if (got.ec != std::errc() || bodySize < 0 || bodySize > std::numeric_limits<int>::max() / 2) [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0}; // Not a usable length
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
-- 
2.43.0


From 8671cee541f4b7a433b98eeeeadd544fef2928ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 11/67] fix: first lines of HTTP messages must not be read
 beyond their end

---
 bomba_http.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 7c24663..3e9ad6b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -634,7 +634,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -646,8 +646,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine))
+					return false; // Not a HTTP request line
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -847,13 +849,15 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			int separator2 = separator1;
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
+			if (separator2 > std::ssize(firstLine))
+				return false; // Not a HTTP status line
+			std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
 			return true;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
-- 
2.43.0


From f35a5bc1415e4e109f93f81c1b0f3832737f16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 12/67] fix: HTTP requests that could not be sent must not be
 counted

All following responses were assigned to wrong requests.
---
 bomba_http.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3e9ad6b..de16f48 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -868,7 +868,7 @@ public:
 
 	RequestToken post(std::string_view contentType,
 			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
-		_lastTokenWritten.id++;
+		RequestToken token{_lastTokenWritten.id + 1};
 		ExpandingBufferType written;
 		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
@@ -880,13 +880,14 @@ public:
 		written += contentType;
 		written += "\r\n\r\n";
 		int sizeBefore = written.size();
-		request(written, RequestToken{_lastTokenWritten});
+		request(written, token);
 		std::string_view reqView = written;
 		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
 				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
-		return _lastTokenWritten;
+		_lastTokenWritten = token; // Only requests that were sent get responses
+		return token;
 	}
 
 	RequestToken get(std::string_view resource = "/") {
@@ -899,8 +900,8 @@ public:
 		written += mid;
 		written += _virtualHost;
 		written += suffix;
-		_lastTokenWritten.id++;
 		_client.writeRequest(written);
+		_lastTokenWritten.id++; // Only requests that were sent get responses
 		return _lastTokenWritten;
 	}
 
-- 
2.43.0


From b4da1554eefb0a1b7fcd331286a0d6d2bdead856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 13/67] fix: HTTP client must match responses to requests
 without losing any

Bodyless responses, responses of requests whose handling throws and
responses found while only asking for readiness were lost or given to
the wrong request.
---
 bomba_http.hpp | 85 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index de16f48..d354f6a 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <exception>
 #include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
@@ -836,16 +837,20 @@ class HttpClient : public IRpcResponder {
 	}
 
 	bool hasResponse(RequestToken token) override {
+		bool done = false;
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
-			has = true;
-			return true;
+		ParseState state;
+		_client.tryToGetResponse(token, [&] (std::span<char> input, bool identified) {
+			return findResponse(token, state, input, identified, done, [&] (std::span<char>, bool) {
+				has = true;
+			});
 		});
 		return has;
 	}
 
 	struct ParseState : Detail::HttpParseState {
 		int resultCode = 0;
+		bool headerRead = false;
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
@@ -907,40 +912,60 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		bool received = false;
+		std::exception_ptr problem = nullptr;
 		while (!done) {
 			ParseState state;
-			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
-						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-				// Locate the header's span
-				if (state.bodySize == -1) {
-					auto [reaction, position] = state.parse(input);
-					if (reaction == ServerReaction::DISCONNECT) {
-						done = true;
+			_client.getResponse(token, [&, this] (std::span<char> input, bool identified) {
+				return findResponse(token, state, input, identified, done, [&] (std::span<char> message, bool success) {
+					received = true;
+					try {
+						reader(message, success);
+					} catch (...) {
+						problem = std::current_exception(); // The response has to be consumed in any case
 					}
-					if (reaction != ServerReaction::OK) {
-						return {reaction, RequestToken{}, position};
-					}
-				}
+				});
+			});
+		}
+		if (problem)
+			std::rethrow_exception(problem);
+		if (!received)
+			remoteError("Malformed response");
+	}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
-					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
-				}
-			
-				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + std::max(0, state.bodySize);
-					state = ParseState{};
-					_lastTokenRead.id++;
-					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
-				}					
+private:
+	std::tuple<ServerReaction, RequestToken, int64_t> findResponse(RequestToken token, ParseState& state,
+				std::span<char> input, bool identified, bool& done, Callback<void(std::span<char>, bool)> onFound) {
+		// Locate the header's span
+		if (!state.headerRead) {
+			auto [reaction, position] = state.parse(input);
+			if (reaction == ServerReaction::DISCONNECT) {
 				done = true;
+			}
+			if (reaction != ServerReaction::OK) {
+				return {reaction, RequestToken{}, position};
+			}
+			state.headerRead = true;
+		}
 
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
-						(state.resultCode >= 200 && state.resultCode < 300));
-				if (!identified)
-					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
-			});
+		int bodySize = std::max(0, state.bodySize); // There may be no body
+		int64_t end = state.parsePosition + bodySize;
+		if (std::ssize(input) < end) {
+			return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+		}
+
+		if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
+			state = ParseState{};
+			_lastTokenRead.id++;
+			return {ServerReaction::WRONG_REPLY, _lastTokenRead, end};
 		}
+
+		done = true;
+		onFound(input.subspan(state.parsePosition, bodySize), (state.resultCode >= 200 && state.resultCode < 300));
+		state = ParseState{};
+		if (!identified)
+			_lastTokenRead.id++;
+		return {ServerReaction::OK, _lastTokenRead, end};
 	}
 };
 
-- 
2.43.0


From cc9db0c3e984da952a7b05d202f092c99e49be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 14/67] fix: JSON-RPC client must not return a value the server
 did not send

Responses with an error status or without a result were ignored and a
default or uninitialised value was returned.
---
 bomba_json_rpc.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index d207df9..50e5e2b 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -274,10 +274,13 @@ public:
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) final override {
 		bool retval = false;
 		_upper.getResponse(token, [&reader, &retval, token] (std::span<char> message, bool success) {
-			if (!success)
+			if (!success) {
+				remoteError("Server did not respond with OK");
 				return false;
+			}
 			typename Json::Input input(std::string_view(message.data(), message.size()));
 			bool okay = true;
+			bool answered = false;
 			auto fail = [&okay] (std::string_view problem) {
 				parseError(problem);
 				okay = false;
@@ -306,6 +309,7 @@ public:
 					okay = false;
 					return false;
 				} else if (*nextName == "result") {
+					answered = true;
 					reader(input);
 				} else {
 					fail("Unknown toplevel element");
@@ -313,6 +317,8 @@ public:
 				}
 				return true;
 			});
+			if (okay && !answered)
+				fail("Response contains no result");
 			retval = input.good;
 			return okay;
 		});
-- 
2.43.0


From 386b751cc21176dbf9840c22436a31fd6a6a9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 15/67] fix: futures must keep the failure of a call and
 survive it

The destructor let the exception of a failed call escape, a failed
result was waited for again, asking a void call if it is ready lost its
result and moving into a future was undefined.
---
 bomba_rpc_object.hpp | 54 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..949b4e8 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -6,6 +6,7 @@
 #endif
 
 #include <csetjmp>
+#include <exception>
 
 #if (_MSC_VER && !__INTEL_COMPILER) || __clang__
 #define NO_DEFECT_REPORT_2118
@@ -263,7 +264,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			std::swap(_reader, other._reader);
+			std::swap(_responder, other._responder);
+			std::swap(_token, other._token);
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -272,14 +278,19 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable std::exception_ptr _problem = nullptr;
 	using Base = Detail::FutureBase<Returned>;
 
 	void cleanup() {
-		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
-		}
+		if (Base::_responder && !_value && !_problem) {
+			try {
+				get();
+			} catch (...) {} // Nobody is interested in the result any more
+		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value = std::nullopt;
+		_problem = nullptr;
 	}
 public:
 	using Base::FutureBase;
@@ -290,17 +301,26 @@ public:
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_problem, other._problem);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
-			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+		if (_problem)
+			std::rethrow_exception(_problem);
+		if (!_value) {
+			try {
+				_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+			} catch (...) {
+				_problem = std::current_exception(); // The response can be read only once
+				throw;
+			}
+		}
 		return *_value;
 	}
 
 	bool is_ready() const {
-		if (_value)
+		if (_value || _problem)
 			return true;
 		return Base::_responder->hasResponse(Base::_token);
 	}
@@ -314,21 +334,29 @@ template <>
 class Future<void> : Detail::FutureBase<void> {
 	using Base = Detail::FutureBase<void>;
 	mutable bool _done = false;
+	mutable std::exception_ptr _problem = nullptr;
 public:
 	using Base::FutureBase;
 	Future() = default;
 
 	void get() const {
-		if (_done)
+		if (_problem)
+			std::rethrow_exception(_problem);
+		if (_done || !Base::_reader) // There is no reader if it was called directly
 			return;
-		Base::_reader->readResponse(Base::_responder, Base::_token);
+		try {
+			Base::_reader->readResponse(Base::_responder, Base::_token);
+		} catch (...) {
+			_problem = std::current_exception(); // The response can be read only once
+			throw;
+		}
 		_done = true;
 	}
 
 	bool is_ready() const {
-		if (_done)
+		if (_done || _problem || !Base::_reader)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token);
 	}
 };
 
-- 
2.43.0


From 0c393e8181df140d905ee164f85e828bfd0b88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 16/67] fix: reading arrays in the binary format lost the last
 element

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..b1842e9 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -67,6 +67,7 @@ struct BinaryFormat {
 		std::span<const char> _contents;
 		int _position = 0;
 		std::array<int, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Where the first element is, -1 after its reading was announced
 		int _depth = -1;
 
 		template <typename T>
@@ -134,9 +135,12 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_starts[_depth] != _position) // The first element may be read without asking if there is any
+				_sizes[_depth]--;
+			_starts[_depth] = -1;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From 9f2bbbc9f287980698f3e82360df4a58fe92c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 17/67] fix: maps were unreadable in formats relying on known
 layouts

---
 bomba_core.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..e2aaaf2 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1092,7 +1092,11 @@ concept SerialisableMap = requires(M map, M secondMap, typename M::key_type key)
 template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
-	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
+	constexpr static SerialisationFlags::Flags unknownLayout(SerialisationFlags::Flags flags) {
+		return SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // The keys are never known
+	}
+	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags givenFlags) {
+		SerialisationFlags::Flags flags = unknownLayout(givenFlags);
 		out.startWritingObject(flags, value.size());
 		int index = 0;
 		for (auto& it : value) {
@@ -1103,7 +1107,8 @@ struct TypedSerialiser<Map> {
 		out.endWritingObject(flags);
 	}
 
-	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
+	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags givenFlags) {
+		SerialisationFlags::Flags flags = unknownLayout(givenFlags);
 		if (value.empty()) {
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
-- 
2.43.0


From d218da1203254ae5c2b1e65ee011c10d864a44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 18/67] fix: binary protocol must not read beyond messages or
 die of bad ones

Malformed messages were parsed beyond their end or waited for forever,
exceptions on the server ended the whole process and messages too large
for their size field were sent with a wrong size.
---
 bomba_binary_protocol.hpp | 92 ++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 31 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b1842e9..68e224c 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -11,6 +11,8 @@
 #include <cstring>
 #include <cmath>
 #include <bit>
+#include <exception>
+#include <limits>
 
 namespace Bomba {
 
@@ -259,40 +261,52 @@ public:
 	public:
 		std::pair<ServerReaction, int64_t> respond(
 				std::span<char> input, Callback<void(std::span<const char>)> writer) override {
-			if (input.size() < sizeof(int) + sizeof(SizeType))
+			constexpr int headerSize = sizeof(int) + sizeof(SizeType);
+			if (input.size() < headerSize)
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
-
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			using Format = BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>;
+			typename Format::Input header(std::string_view(input.data(), headerSize));
+
+			int messageId = header.readInt(SerialisationFlags::UINT_32);
+			int inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < headerSize) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
 
-			const IRemoteCallable* target = &parent.callable;
-			while (target->getChild(0)) {
-				int request = in.readInt(SerialisationFlags::UINT_8);
-				target = target->getChild(request);
-				if (!target)
-					return {ServerReaction::DISCONNECT, 0};
-			}
+			try {
+				// Nothing behind the message can be read
+				typename Format::Input in(std::string_view(input.data() + headerSize, inputSize - headerSize));
+				const IRemoteCallable* target = &parent.callable;
+				while (target->getChild(0)) {
+					int request = in.readInt(SerialisationFlags::UINT_8);
+					target = target->getChild(request);
+					if (!target)
+						return {ServerReaction::DISCONNECT, 0};
+				}
 
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
-			out.writeInt(SerialisationFlags::UINT_32, messageId);
-			auto sizePosition = outputBuffer.size();
-			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
+				typename Format::Output out(outputBuffer);
+				out.writeInt(SerialisationFlags::UINT_32, messageId);
+				auto sizePosition = outputBuffer.size();
+				out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
-			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+				bool callable = target->call(&in, out, [&] {}, [&] (std::string_view problem) {
+					out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
+				});
+				if (!callable || outputBuffer.size() > std::numeric_limits<SizeType>::max()) [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0};
+				SizeType outputSize = outputBuffer.size();
+				memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			} catch (...) { // The protocol can't describe errors
+				return {ServerReaction::DISCONNECT, 0};
+			}
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, inputSize};
 		}
 	};
 
@@ -310,18 +324,22 @@ class BinaryProtocolClient : public IRpcResponder {
 	auto getResponseReader(RequestToken token, Callback<void(IStructuredInput&)> operation) {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
-			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			using Input = typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input;
+			constexpr int headerSize = sizeof(int) + sizeof(SizeType);
+			if (data.size() < headerSize)
+				return {ServerReaction::READ_ON, RequestToken(), 0};
+			Input header(std::string_view(data.data(), headerSize));
+			RequestToken receivedToken = { uint32_t(header.readInt(SerialisationFlags::UINT_32)) };
+			SizeType size = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (size < headerSize) [[unlikely]]
+				return {ServerReaction::DISCONNECT, receivedToken, 0};
 			if (data.size() < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
+			// Nothing behind the message can be read
+			Input in(std::string_view(data.data() + headerSize, size - headerSize));
 			operation(in);
 			return {ServerReaction::OK, token, size};
 		};
@@ -354,6 +372,9 @@ public:
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
 		request(out, token);
 
+		if (outputBuffer.size() > std::numeric_limits<SizeType>::max()) [[unlikely]]
+			throw std::logic_error("Message too large, use a larger size type as template argument");
+
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
@@ -362,7 +383,16 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
+		std::exception_ptr problem = nullptr;
+		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) {
+			try {
+				reader(input);
+			} catch (...) {
+				problem = std::current_exception(); // The response has to be consumed in any case
+			}
+		}));
+		if (problem)
+			std::rethrow_exception(problem);
 		return true;
 	}
 	bool hasResponse(RequestToken token) override {
-- 
2.43.0


From 223f51a46b3a1c8993d3b1718e94a6da14533cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 19/67] fix: TCP server must survive disconnected clients and
 partial writes

Failed writing raised an exception or SIGPIPE that ended the server and
the rest of partially written responses was lost.
---
 bomba_tcp_server.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..d84b087 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -191,9 +191,28 @@ class TcpServer {
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
-			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
-			});
+			bool broken = false;
+			std::pair<ServerReaction, int> result = {ServerReaction::DISCONNECT, 0};
+			try {
+				result = _responder.respond(data, [this, &broken] (std::span<const char> output) {
+					while (!output.empty() && !broken) {
+						std::error_code error;
+						size_t sent = _socket.send(Net::buffer(output.data(), output.size()),
+								static_cast<Net::socket_base::message_flags>(MSG_NOSIGNAL), error);
+						if (error == std::errc::interrupted)
+							continue;
+						if (error)
+							broken = true; // The other side has disconnected
+						else
+							output = output.subspan(sent);
+					}
+				});
+			} catch (...) {
+				broken = true; // Affects only this session
+			}
+			if (broken)
+				return {ServerReaction::DISCONNECT, 0};
+			return result;
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 20eb31adbcab0ae54b25c741b5c8c720b6053d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 20/67] fix: TCP server must keep accepting after a failed
 accept

---
 bomba_tcp_server.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index d84b087..1ae8078 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -228,8 +228,12 @@ class TcpServer {
 
 	void startSession() {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
+			if (error == std::errc::operation_canceled) {
+				return;
+			}
 			if (error) {
 //				std::cout << "Error: " << error.message() << std::endl;
+				startSession(); // The problem may be only temporary
 				return;
 			}
 			{
-- 
2.43.0


From 1434ee21f4a0cfe8e9a538b34b7e65c6b2b1dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 21/67] fix: average response time can be asked for at any
 moment

---
 bomba_tcp_server.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 1ae8078..8ba43a1 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -6,6 +6,7 @@
 #endif
 
 #include <experimental/net>
+#include <atomic>
 #include <vector>
 #include <chrono>
 
@@ -147,8 +148,8 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
-	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
-	int64_t _totalResponses = 0;
+	std::atomic<int64_t> _totalResponseTime = 0; // In nanoseconds
+	std::atomic<int64_t> _totalResponses = 0;
 
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
@@ -175,7 +176,7 @@ class TcpServer {
 					readSome();
 				}
 				auto endTime = std::chrono::steady_clock::now();
-				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
+				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime).count();
 
 				if (!expectingMore) {
 					cancel();
@@ -277,7 +278,10 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		int64_t responses = _totalResponses;
+		if (responses == 0)
+			return std::chrono::nanoseconds(0);
+		return std::chrono::nanoseconds(_totalResponseTime / responses);
 	}
 };
 
-- 
2.43.0


From 3097b4b2010f96063c526ca0afb502b5ab8dd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 22/67] fix: HTTP requests must not influence the following
 ones

Content type and closing of connection were taken from former requests,
bodies of other requests than POST were parsed as requests and the
response to unsupported methods had a malformed header.
---
 bomba_http.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d354f6a..d09ef83 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -673,8 +673,7 @@ public:
 		std::pair<ServerReaction, int64_t> respond(
 					std::span<char> input, Callback<void(std::span<const char>)> writer) override {
 			auto restore = [this] () {
-				_state.reset();
-				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state = ParseState(); // Nothing may affect the following request
 			};
 
 			// Locate the header's span
@@ -690,17 +689,15 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1)
+				_state.bodySize = 0;
 			int consuming = _state.parsePosition + _state.bodySize;
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
@@ -787,13 +784,14 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From 2af768006dcb00b4dcfdcfc478344c353613553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 23/67] fix: HTTP server must not append to a response that
 failed midway

An error response was appended to the incomplete one and responses
shorter than announced left the connection open.
---
 bomba_http.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d09ef83..29b0efa 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -705,6 +705,8 @@ public:
 				struct WriteStarter : IWriteStarter {
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
+					bool startedStreaming = false; // A part may have been sent, no other response can be sent
+					bool incomplete = false;
 					int headerSize = 0;
 
 
@@ -739,8 +741,12 @@ public:
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
 						NonOwningStreamingBuffer<1024> streamingBuffer{writer};
+						startedStreaming = true;
+						incomplete = true;
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
+						if (streamingBuffer.size() - headerSize == size) [[likely]]
+							incomplete = false;
 					}
 				};
 
@@ -769,12 +775,18 @@ public:
 						}
 					}
 				} catch (...) {
+					if (correctResponseWriter.startedStreaming) {
+						return {ServerReaction::DISCONNECT, 0};
+					}
 					constexpr std::string_view errorMessage =
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
 							"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
 					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 				}
+				if (correctResponseWriter.incomplete) {
+					return {ServerReaction::DISCONNECT, 0};
+				}
 				if (success) {
 					if (correctResponseWriter.startedResponse) {
 					} else {
-- 
2.43.0


From 6ca056f0cf23e1eb36fd472323b0f6a1a953cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 24/67] fix: unknown arguments of a call must be skipped

---
 bomba_rpc_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 949b4e8..cef39aa 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -442,7 +442,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
-				return;
+				if (name.has_value()) // Not an argument of this function
+					in.skipObjectElement(flags);
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
 					TypedSerialiser<std::decay_t<decltype(std::get<ArgIndex>(args))>>::deserialiseMember(
-- 
2.43.0


From ae55ece72feed99697abc8f81020299c3f5bce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 25/67] fix: form decoding of numbers, borderline characters
 and groups

Reading floating point numbers moved beyond the input, types were
identified by a wrong character, U+0800 and & followed by digits were
decoded wrongly and requests naming only a group of methods reported
success.
---
 bomba_http.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 29b0efa..e8a3b9d 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -175,7 +175,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
@@ -198,7 +198,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 			};
 			int decoded = urlDecode(i);
 			if (decoded == '&' && i + 8 < std::ssize(input)) [[unlikely]] {
-				if (urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
+				if (input[i + 3] == '%' && urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
 					int numberEnd = i + 7;
 					while (numberEnd < std::ssize(input) && input[numberEnd] >= '0' && input[numberEnd] <= '9')
 						numberEnd++;
@@ -331,9 +331,9 @@ struct HtmlMessageEncoding {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
+					if (demangledPos + 1 >= std::ssize(demangled)) [[unlikely]]
 						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					if (demangled[demangledPos + 1] == '-')
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -341,8 +341,7 @@ struct HtmlMessageEncoding {
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
@@ -361,7 +360,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
@@ -409,8 +407,6 @@ struct HtmlMessageEncoding {
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
 			while (_position < std::ssize(_contents) && _contents[_position] != '&')
 				_position++;
 		}
@@ -542,8 +538,7 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		method->call(&input, nullOutput, {}, {});
-		return true;
+		return method->call(&input, nullOutput, {}, {}); // It may be only a group of methods
 	}
 };
 
@@ -564,7 +559,8 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 			} else {
 				outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
 					typename OutputFormat::Output response(output);
-					method->call(args, response, {}, {});
+					if (!method->call(args, response, {}, {})) [[unlikely]]
+						remoteError("Not a method"); // It's only a group of methods
 				});
 			}
 			return true;
-- 
2.43.0


From 4c61e24cb8e24715af22d341a4d70835bd1370db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 26/67] fix: appending a character to a full buffer must not
 overflow it

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index e2aaaf2..d1a1ac1 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -421,6 +421,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.size() == 0) [[unlikely]] // Could not be extended
+			return *this;
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From 35d977edb3dfcb411d9de7a31feeb5d22bb67ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 27/67] fix: files without extension must be served

---
 bomba_download_server.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..f75f4a8 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -48,6 +48,8 @@ protected:
 		auto foundExtension = _extensions.find(std::string(extension));
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() <= 1) {
+			return "application/octet-stream"; // No extension
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +90,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From c0128177c9fc20b3e6c3c4d9e17365245c70ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 28/67] fix: absolute paths must not escape the folder of the
 file server

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index f75f4a8..3b4eeef 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -111,7 +111,8 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || editedPath.find("//") != std::string_view::npos || editedPath.find('\0') != std::string_view::npos
+					|| editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
-- 
2.43.0


From f70612b7c6ad42eab805650a1efe0bdcaa62ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 29/67] fix: unreadable files must not be served with made up
 content

---
 bomba_download_server.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 3b4eeef..d4ddbe3 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -128,12 +128,18 @@ public:
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
 		std::ifstream file(fullPath);
+		if (!file.is_open()) {
+			std::cout << "Can't read " << fullPath << std::endl;
+			return false;
+		}
 		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
 				int amount = std::min<int>(buffer.size(), size - position);
 				file.read(buffer.data(), amount);
+				if (file.gcount() != amount)
+					throw std::runtime_error("File could not be read");
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
@@ -181,6 +187,10 @@ class CachingFileServer : public FileServerBase {
 		std::streampos fileSize = file.tellg();
 		file.seekg(0, std::ios::beg);
 		entry.contents.insert(entry.contents.begin(), std::istream_iterator<char>(file), std::istream_iterator<char>());
+		if (!file.eof() || file.bad()) {
+			std::cout << "Can't read " << path << std::endl;
+			return;
+		}
 
 		_fileNames.emplace_back(localPath);
 		_cache.insert(std::make_pair(std::string_view(_fileNames.back()), std::move(entry)));
-- 
2.43.0


From a6dfec852b3b0dce8061c5258805a540df785146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 30/67] fix: generated files may be added or replaced while the
 cache is in use

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index d4ddbe3..a7058af 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -229,10 +229,11 @@ public:
 		reloadInternal();
 	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
+		std::lock_guard lock(_mutex);
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-			_cache.insert(std::make_pair(name, std::move(entry)));
+			_cache.insert_or_assign(name, std::move(entry)); // It may have been generated before
 		});
 	}
 	void addGeneratedFile(std::string_view name, const std::string& contents) {
-- 
2.43.0


From f6130576df2ada3c78b59e813a77fee665308902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 31/67] fix: HTTP header parsing resumed without more input
 must not read beyond its end

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e8a3b9d..752acf6 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -51,7 +51,7 @@ struct HttpParseState {
 			parsePosition = position;
 		}
 
-		if (position == std::ssize(input)) {
+		if (position >= std::ssize(input)) {
 			return {ServerReaction::READ_ON, position - 1};
 		}
 		// Parse it line by line
-- 
2.43.0


From fa03f058b638e5f940c710f0efc7da9ec4909028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 32/67] fix: Numbers with positive exponents must survive form
 encoding

---
 bomba_http.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 752acf6..9f4a886 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -443,7 +443,12 @@ struct HtmlMessageEncoding {
 			writeValue(value);
 		}
 		void writeFloat(Flags, double value) final override {
-			writeValue(value);
+			constexpr int SIZE = 32;
+			std::array<char, SIZE> bytes = {};
+			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			for (const char* it = bytes.data(); *it; it++)
+				if (*it != '+') // It would mean a space, the exponent is positive without it too
+					_contents += *it;
 		}
 		void writeString(Flags, std::string_view value) final override {
 			mangleHttpResponse(value, _contents);
-- 
2.43.0


From 7bdfe83b4ac99d284390179dff0ba6ae94507158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 33/67] fix: caching file server must not open what isn't a
 file

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index a7058af..9ca16a6 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -171,7 +171,7 @@ class CachingFileServer : public FileServerBase {
 			std::string localPath = std::string(prefix) + '/' + file.path().filename().string();
 			if (file.is_directory()) {
 				cacheFolder(file.path(), localPath);
-			} else {
+			} else if (file.is_regular_file()) { // Opening a pipe would wait for its other end
 				cacheFile(file.path(), localPath);
 			}
 		}
-- 
2.43.0


From 7ca48cbd8679b2fe21ebaf5d7de2d9fe15e6d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 34/67] fix: failed reloading must not leave the file cache
 incomplete

---
 bomba_download_server.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 9ca16a6..37e04ee 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -196,10 +196,18 @@ class CachingFileServer : public FileServerBase {
 		_cache.insert(std::make_pair(std::string_view(_fileNames.back()), std::move(entry)));
 	}
 	void reloadInternal() {
+		auto previousCache = std::move(_cache);
+		auto previousFileNames = std::move(_fileNames);
 		_cache.clear();
 		_fileNames.clear();
-		cacheFolder(_root, "");
-		applyModifiers();
+		try {
+			cacheFolder(_root, "");
+			applyModifiers();
+		} catch (...) { // The folder could not be read
+			_cache = std::move(previousCache);
+			_fileNames = std::move(previousFileNames);
+			throw;
+		}
 	}
 
 public:
-- 
2.43.0


From 826c6f9646cbd85e531bd7da95032e79953048c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 35/67] fix: optional members of types that can't be copied by
 bytes had a wrong position in serialised objects

---
 bomba_object.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..6f3ae87 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -321,8 +321,7 @@ class Serialisable : public IDescribableSerialisable {
 				if (_setupInstance) [[unlikely]] {
 					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
 					T value;
-					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
+					value = std::decay_t<decltype(*value)>(); // Returning it empty might not copy the instance part
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From 55c2d616a25f49c4bc05b9cb99e471ec62cc7699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 36/67] fix: an unknown member in an object made the reader
 stop before its end, other members were lost

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 6f3ae87..3358a04 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -439,7 +439,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if not the last one (named ones can be unknown)
 #endif
 		});
 		return format.good;
-- 
2.43.0


From b5589fe0b7f0ec1803e4e54e8e0d76adef2f601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 37/67] fix: an RpcLambdaHolder couldn't own an object with
 methods

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..05d51dd 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From 26b44d0948f3428fc9ca95687eca05237dbdb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 38/67] fix: creating objects of one class in several threads
 raced on the position of its methods

---
 bomba_rpc_object.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index cef39aa..bddae70 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 
+#include <atomic>
 #include <csetjmp>
 #include <exception>
 
@@ -91,7 +92,7 @@ struct IResponseReader {
 
 	template <typename Parent, int Index>
 	struct SubclassAccess {
-		friend int& childOffset(SubclassAccess<Parent, Index>);
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>);
 		friend constexpr auto childName(SubclassAccess<Parent, Index>);
 		friend constexpr SerialisationFlags::Flags flagsOf(SubclassAccess<Parent, Index>);
 		friend constexpr ChildGettingFunction childGetter(SubclassAccess<Parent, Index>);
@@ -107,8 +108,8 @@ struct IResponseReader {
 			ChildGettingFunction ChildGetter, ChildNameGettingFunction ChildNameGetter,
 			SubtypesAddingFunction SubtypesAdder, ChildDescribingFunction ChildDescriptor>
 	struct SubclassSaver {
-		friend int& childOffset(SubclassAccess<Parent, Index>) {
-			static int saved = -1;
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>) {
+			static std::atomic<int> saved = -1; // Objects may be created in more threads at once
 			return saved;
 		}
 		friend constexpr auto childName(SubclassAccess<Parent, Index>) {
@@ -153,7 +154,7 @@ struct IResponseReader {
 	};
 
 	template <typename Parent, int Index>
-	constexpr int& getChildOffset() {
+	std::atomic<int>& getChildOffset() {
 		return childOffset(SubclassAccess<Parent, Index>());
 	}
 
@@ -827,7 +828,7 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 #else
 		constexpr int parentIndex = Detail::AddChildRpc<ParentObject, 0, Name, Flags, childGetter, childNameGetter<Name>,
 				ParentClass::info.subtypesAdder, ParentClass::template childAdder<Name> >::index;
-		int& offset = Detail::getChildOffset<ParentObject, parentIndex>();
+		std::atomic<int>& offset = Detail::getChildOffset<ParentObject, parentIndex>();
 		if (offset == -1) [[unlikely]] {
 			offset = reinterpret_cast<intptr_t>(this) - reinterpret_cast<intptr_t>(ParentObject::setupInstance);
 		}
-- 
2.43.0


From 5d969a8becdf32efd2a1f811aa2fca94f3265518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 39/67] fix: numbers declared as FLOAT_16 were read as
 completely different numbers

---
 bomba_core.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index d1a1ac1..8326ba9 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -93,12 +93,33 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt = 0;
+		memcpy(&asInt, &value, sizeof(asInt));
+		int exponent = int((asInt >> 23) & 0xff) - 112;
+		uint32_t mantissa = asInt & 0x7fffff;
+		data = (asInt >> 16) & 0x8000;
+		if (exponent == 143) // Infinity or not a number
+			data |= 0x7c00 | (mantissa ? 0x0200 : 0);
+		else if (exponent > 30) // Too large
+			data |= 0x7c00;
+		else if (exponent > 0)
+			data |= (exponent << 10) | (mantissa >> 13);
+		else if (exponent > -10) // Subnormal
+			data |= (mantissa | 0x800000) >> (14 - exponent);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		uint32_t sign = uint32_t(data & 0x8000) << 16;
+		uint32_t exponent = (data & 0x7c00) >> 10;
+		uint32_t mantissa = data & 0x03ff;
+		if (exponent == 0) { // Zero or subnormal
+			float value = float(mantissa) / (1 << 24);
+			return sign ? -value : value;
+		}
+		uint32_t asInt = sign | ((exponent == 31 ? 255 : exponent + 112) << 23) | (mantissa << 13);
+		float value = 0;
+		memcpy(&value, &asInt, sizeof(value));
+		return value;
 	}
 };
 
-- 
2.43.0


From c9fa704b54a05b031f111905a315af7313b5d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 40/67] fix: serialising long long, char and other types with
 no flag of their own ran off the end of a function

---
 bomba_core.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 8326ba9..9bc7051 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -160,6 +160,12 @@ namespace SerialisationFlags {
 		else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
 		else if constexpr(std::is_same_v<T, float>) return FLOAT_32;
 		else if constexpr(std::is_same_v<T, double>) return FLOAT_64;
+		// Types that are the same as one of the above except by name, like long long or char
+		else if constexpr(std::is_floating_point_v<T>) return FLOAT_64;
+		else if constexpr(sizeof(T) == 1) return std::is_signed_v<T> ? INT_8 : UINT_8;
+		else if constexpr(sizeof(T) == 2) return std::is_signed_v<T> ? INT_16 : UINT_16;
+		else if constexpr(sizeof(T) == 4) return std::is_signed_v<T> ? INT_32 : UINT_32;
+		else return std::is_signed_v<T> ? INT_64 : UINT_64;
 	}
 
 	template <typename Functor>
-- 
2.43.0


From 5ced5aec54b8f55decef2460a99d9731ffd565b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 41/67] fix: updating a map stored elements under wrong keys

---
 bomba_core.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 9bc7051..088a8b4 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1148,12 +1148,13 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+				typename Map::key_type key(*elementName); // The name is not valid after reading the value
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+					TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From fadd90dafc701a6204c1d93e7355cbe5d8ddf7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 42/67] fix: booleans, optional values and containers with a
 declared numeric type were written in binary format so that they couldn't be
 read

---
 bomba_binary_protocol.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 68e224c..042c9e4 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -87,7 +87,8 @@ struct BinaryFormat {
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
 				readInt(flags);
-			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
+			return readInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
+					| SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
 		Input(std::string_view contents) : _contents(contents.data(), contents.size()) {}
@@ -191,7 +192,8 @@ struct BinaryFormat {
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
 				writeInt(flags, size);
-			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
+			return writeInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
+					| SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
@@ -207,7 +209,7 @@ struct BinaryFormat {
 			_contents += value;
 		}
 		void writeBool(Flags flags, bool value) final override {
-			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
+			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::INT_8, _contents); // The type declared is not its type
 		}
 		void writeNull(Flags) final override {
 		}
-- 
2.43.0


From f96c6b499e31a6e6ba8b048d701c70c7e51dca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 43/67] fix: the maximal depth given to BinaryProtocolServer
 was ignored

---
 bomba_binary_protocol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 042c9e4..efabfe2 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -268,7 +268,7 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			using Format = BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>;
+			using Format = BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>;
 			typename Format::Input header(std::string_view(input.data(), headerSize));
 
 			int messageId = header.readInt(SerialisationFlags::UINT_32);
-- 
2.43.0


From 8df3a350641ad10ba85f7e7ea5002176dbd799eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 44/67] fix: a false argument with OMIT_FALSE was left out in
 the binary protocol, shifting the following ones

---
 bomba_binary_protocol.hpp | 3 +++
 bomba_core.hpp            | 5 +++++
 bomba_rpc_object.hpp      | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index efabfe2..2b9a89d 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -238,6 +238,9 @@ struct BinaryFormat {
 		}
 		void endWritingObject(Flags) final override {
 		}
+		bool canOmitMembers() const final override {
+			return false; // Members are identified by their order
+		}
 
 		void writeOptional(Flags flags, bool present, Callback<> writeValue) final override {
 			writeBool(flags, present);
diff --git a/bomba_core.hpp b/bomba_core.hpp
index 088a8b4..22651df 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -226,6 +226,11 @@ struct IStructuredOutput {
 	// Called after writing the last value in the object
 	virtual void endWritingObject(Flags flags) = 0;
 
+	// Should return if an object member with a default value can be left out in this format
+	virtual bool canOmitMembers() const {
+		return true;
+	}
+
 	// Should write an optional value, empty if it's absent and calling the callback to write the value if present
 	virtual void writeOptional(Flags flags, bool present, Callback<> writeValue) = 0;
 
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index bddae70..57f2cb3 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -504,7 +504,7 @@ struct RpcLambdaInformationHolder {
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
-				if (first || !(flags & SerialisationFlags::OMIT_FALSE))
+				if (first || !(flags & SerialisationFlags::OMIT_FALSE) || !out.canOmitMembers())
 					write();
 			} else {
 				write();
-- 
2.43.0


From a1435de3847888c8604ace23d6604533d1b319d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 45/67] fix: methods of an object called through HttpClient
 were all posted to /, not to their paths

---
 bomba_http.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9f4a886..d17a866 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -829,10 +829,10 @@ class HttpClient : public IRpcResponder {
 		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, methodName);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		getResponse(token, [&] (std::span<char> data, bool success) {
@@ -883,12 +883,15 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view path = "") {
 		RequestToken token{_lastTokenWritten.id + 1};
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
+		constexpr char correctIntro[] = "POST /";
 		constexpr char unsetSize[] = "0         ";
 		written += correctIntro;
+		written += path;
+		written += " HTTP/1.1\r\nContent-Length: ";
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -898,8 +901,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, token);
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
+				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		_lastTokenWritten = token; // Only requests that were sent get responses
-- 
2.43.0


From eeaf113a30ebf3d086a4d12612d3fe95cf3a9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 46/67] fix: an absent optional argument with EMPTY_IS_NULL
 could be written in a form, but not read

---
 bomba_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d17a866..12550bb 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -411,7 +411,9 @@ struct HtmlMessageEncoding {
 				_position++;
 		}
 
-		bool readOptional(Flags, Callback<> readValue) override {
+		bool readOptional(Flags flags, Callback<> readValue) override {
+			if ((flags & Flags::EMPTY_IS_NULL) && getEnd() == _position)
+				return false; // Written by writeNull
 			readValue(); // HTTP has no null, so if the value is present, it exists
 			return true;
 		}
-- 
2.43.0


From ae0fdcbe8f69e48f54ebbfc8f2c3d7ecce7231b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 47/67] fix: a method without result called through GET ran and
 then failed with Internal Server Error

---
 bomba_rpc_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 57f2cb3..556422d 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -485,7 +485,7 @@ struct RpcLambdaInformationHolder {
 			if constexpr(std::is_same_v<Returned, void>) {
 				callInternal(std::make_index_sequence<argsSize>(), nullptr, input);
 				introduceResult();
-				result.writeNull(Flags);
+				result.writeNull(SerialisationFlags::Flags(Flags | SerialisationFlags::EMPTY_IS_NULL)); // No value is always a valid result
 			} else {
 				Returned returned;
 				callInternal(std::make_index_sequence<argsSize>(), &returned, input);
-- 
2.43.0


From d5f0689ae3735ec6ddc94fc86a39a97c98af0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 48/67] fix: negative fractions in JSON were identified as
 integers

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index a8aaad1..929b911 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -122,7 +122,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + 1; _contents.begin() + i < _contents.end(); i++) { // There may be a minus at the start
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From a871b84983645c0b3d20be802453f72490c2fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 49/67] fix: integers written in JSON with an exponent lost it
 or failed to parse

---
 bomba_json.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 929b911..7e5dad9 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -145,15 +145,23 @@ struct BasicJson {
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
 			int64_t result = 0;
+			int start = _position;
 			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
 			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
 			char next = peekChar<false>();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
-				_position++;
-				next = peekChar<false>();
+			if (next == '.' || next == 'e' || next == 'E') [[unlikely]] {
+				double asFloat = 0;
+				got = std::from_chars(&_contents[start], &*_contents.end(), asFloat);
+				_position = start + (got.ptr - &_contents[start]);
+				if (asFloat != double(result)) { // Otherwise, there's nothing else than zeroes after the point
+					if (got.ec != std::errc() || !(asFloat >= -0x1p63 && asFloat < 0x1p63)) [[unlikely]]
+						fail("Expected JSON integer");
+					else
+						result = asFloat;
+				}
 			}
 			return result;
 		}
-- 
2.43.0


From 88887d0e8df572b94d6c1c3b9db78805437e9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 50/67] fix: JsonRpcClient could not be used with another
 buffer type

---
 bomba_json_rpc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 50e5e2b..f9c5c1f 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -340,12 +340,12 @@ struct HttpOwner {
 
 
 template <BetterAssembledString StringType = std::string, std::derived_from<GeneralisedBuffer> ExpandingBufferType = ExpandingBuffer<>>
-class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>, public JsonRpcClientProtocol<HttpClient<StringType>> {
+class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>, public JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType> {
 	using HttpOwner = Detail::HttpOwner<StringType, ExpandingBufferType>;
 public:
 	JsonRpcClient(IRemoteCallable& callable, ITcpClient& client, std::string_view virtualHost)
 			: Detail::HttpOwner<StringType, ExpandingBufferType>{{client, virtualHost}},
-			  JsonRpcClientProtocol<HttpClient<StringType>>(callable, HttpOwner::http) {}
+			  JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType>(callable, HttpOwner::http) {}
 
 	bool hasResponse(RequestToken token) override {
 		return static_cast<IRpcResponder&>(HttpOwner::http).hasResponse(token);
-- 
2.43.0


From 09a3c88b19219dcca896fd5cf9d01f8ff9a0b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 51/67] fix: the server of the binary protocol ignored its
 number format when writing message size

---
 bomba_binary_protocol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 2b9a89d..a5d6ee7 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -302,7 +302,7 @@ public:
 				});
 				if (!callable || outputBuffer.size() > std::numeric_limits<SizeType>::max()) [[unlikely]]
 					return {ServerReaction::DISCONNECT, 0};
-				SizeType outputSize = outputBuffer.size();
+				std::array<char, sizeof(SizeType)> outputSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 				memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
 			} catch (...) { // The protocol can't describe errors
 				return {ServerReaction::DISCONNECT, 0};
-- 
2.43.0


From 143db7e73d06e5dee72ccd3b88eb74c6e17c3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 52/67] fix: elements beyond the size of a std::array were read
 as something else, like members of the object around it

---
 bomba_core.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 22651df..bcd0616 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1048,8 +1048,9 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			T surplus = {}; // If there are more than can be stored, they must be read to get behind them
+			TypedSerialiser<T>::deserialiseMember(in, i < int(size) ? value[i] : surplus, flags);
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From f07dd5432dbd84b3db1a392f38845d9fd4ca354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 53/67] fix: a response to a JSON-RPC request with an id beyond
 64 bits had no value of the id

---
 bomba_json.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 7e5dad9..a87ec2b 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -126,8 +126,11 @@ struct BasicJson {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-						return TYPE_INTEGER;
+						break;
 				}
+				int64_t value = 0;
+				if (std::from_chars(&_contents[_position], &*_contents.end(), value).ec == std::errc::result_out_of_range)
+					return TYPE_FLOAT; // Can't be read as an integer
 				return TYPE_INTEGER;
 			}
 			if (nextChar == 'n')
-- 
2.43.0


From bbaefc4317acec97f3ed7d88878a309c66eeaafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 54/67] fix: serialising into an existing buffer did not
 compile

---
 bomba_core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index bcd0616..ad94d03 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -675,7 +675,6 @@ struct ISerialisable {
 	void serialise(FromType& output) {
 		typename F::Output format(output);
 		serialiseInternal(format);
-		return output;
 	}
 	
 	template <DataFormat F, typename FromType>
-- 
2.43.0


From 5f3ae31f2730f80dccb7e573f3be11496cbad961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 55/67] fix: describing an object composed at runtime crashed
 if it contained other objects

---
 bomba_core.hpp           |  6 ++++++
 bomba_dynamic_object.hpp | 13 ++++---------
 bomba_rpc_object.hpp     |  7 +++++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index ad94d03..c39f655 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -833,6 +833,12 @@ public:
 	virtual void generateDescription([[maybe_unused]] IRemoteCallableDescriptionFiller& filler) const {
 		// Not supported if not overloaded, does nothing
 	}
+	// Use the supplied interface to describe this as something available under the given name
+	virtual void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
+		filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nestedFiller) {
+			generateDescription(nestedFiller);
+		});
+	}
 	virtual ~IRemoteCallable() = default;
 };
 
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 05d51dd..f0c8449 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -23,7 +23,6 @@ class RpcLambdaHolder {
 		IRemoteCallable* held = nullptr;
 		std::array<char, sizeof(RpcStatelessLambda<[] {}>) + 3 * sizeof(void*)> local;
 	} _content;
-	const Detail::RpcLambdaInformationHolder* _info = nullptr; // Not nullptr if it's leaf
 	bool _isLocal = {};
 	bool _owning = {};
 
@@ -48,12 +47,9 @@ public:
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
 		if (_isLocal) {
-			auto made = new (&_content.local) RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
-			_info = &made->info;
+			new (&_content.local) RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
 		} else {
-			auto made = new RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
-			_info = &made->info;
-			_content.held = made;
+			_content.held = new RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
 		}
 	}
 
@@ -76,7 +72,6 @@ public:
 	RpcLambdaHolder& operator=(RpcLambdaHolder&& other) {
 		reset();
 		_isLocal = other._isLocal;
-		_info = other._info;
 		_owning = other._owning;
 		if (_isLocal) {
 			memcpy(&_content.local, &other._content.local, sizeof(_content.local));
@@ -101,11 +96,11 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		(*this)->listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		(*this)->addToDescription(name, filler);
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 556422d..6b8b210 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -579,6 +579,13 @@ struct RpcLambdaInformationHolder {
 			info.unnamedChildAdder(Name, filler);
 		};
 
+		void listTypes(ISerialisableDescriptionFiller& filler) const override {
+			info.subtypesAdder(filler);
+		}
+
+		void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const override {
+			info.unnamedChildAdder(name, filler);
+		}
 	};
 
 	template <SerialisationFlags::Flags Flags, typename Placeholder>
-- 
2.43.0


From 66ad59f4f4678cb68f8231599b1f0428a8bf410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 56/67] fix: descriptions of methods nested more than once had
 repeated dots in their names

---
 bomba_json_wsp_description.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..39bd51f 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -154,10 +154,7 @@ class JsonWspDescription : public IRemoteCallableDescriptionFiller {
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
-		if (!prefix.empty()) {
-			_path += prefix;
-			_path += '.';
-		}
+		_path += prefix; // Ends with a dot unless it's empty
 		if (!name.empty()) {
 			_path += name;
 			_path += '.';
-- 
2.43.0


From 94fa58901b2621e865ac72820aabe82a3058c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 57/67] fix: types used only in containers or nested more than
 once were missing from descriptions

---
 bomba_core.hpp   | 12 +++++++++++-
 bomba_object.hpp |  7 +------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index c39f655..09539b2 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1003,8 +1003,18 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool isBeingListed = false; // It can contain itself
+		if (isBeingListed)
+			return;
+		struct Guard {
+			Guard() { isBeingListed = true; }
+			~Guard() { isBeingListed = false; }
+		};
 		Serialisable instance;
-		instance.listTypes(filler);
+		{
+			Guard guard;
+			instance.listTypes(filler);
+		}
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
 			instance.describe(propertyFiller);
 		});
diff --git a/bomba_object.hpp b/bomba_object.hpp
index 3358a04..60385f2 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,12 +54,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From d923d1089b5402868ef942e81a979c249a555cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 58/67] fix: types used in several places were repeated in
 descriptions

---
 bomba_json_wsp_description.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 39bd51f..b6cce7b 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -1,6 +1,10 @@
 #ifndef BOMBA_JSON_WSP_DESCRIPTION
 #define BOMBA_JSON_WSP_DESCRIPTION
 
+#include <algorithm>
+#include <string>
+#include <vector>
+
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "bomba_core.hpp"
 #endif
@@ -70,6 +74,7 @@ public:
 
 class JsonWspTypeDescription : public ISerialisableDescriptionFiller {
 	IStructuredOutput::ObjectFiller& _output;
+	std::vector<std::string> _listed;
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 
 public:
@@ -80,6 +85,9 @@ public:
 	}
 
 	void fillMembers(std::string_view name, Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		if (std::find(_listed.begin(), _listed.end(), name) != _listed.end())
+			return; // Used in several places
+		_listed.emplace_back(name);
 		auto object = _output.writeObject(name);
 		JsonWspMembersDescription descriptor(object);
 		filler(descriptor);
-- 
2.43.0


From a235c225a0d5f82e73b39817b9de093c976b767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 59/67] fix: an RpcLambdaHolder made from a copy of a lambda
 kept whatever it captured in place without copying it properly or destroying
 it

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index f0c8449..8b2431e 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -42,7 +42,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_copyable_v<std::decay_t<LambdaType>>) // Moved by memcpy, never destroyed
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From 1c82d878acc8a655f54d2246ddfa21581212b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 60/67] fix: the JavaScript client's checks of arrays referred
 to an undeclared variable, so no array could be given as an argument

---
 public_html/bomba.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b90439a..1f7d136 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,16 +108,18 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described) {
+function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
 		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
 	} else if (described === "string") {
 		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
 	} else if (described === "boolean") {
 		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
-	} else if (typeof type === "object" && Array.isArray(type)) {
-		let result = `if (typeof ${name} != "object" || Array.isArray(${name})) { throw "${name} must be an array" } `;
-		result += `for (let i = 0; i < ${name}.length; i++) { ${ makeCheckIfExpectedType(name + "[i]", described[0]) } }`;
+	} else if (Array.isArray(described)) {
+		const index = `i${depth}`;
+		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
+		return result;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
-- 
2.43.0


From 79e1e379962a26cbdf0fcafddacf8683f23b83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 61/67] fix: the JavaScript client accepted nothing as a table
 indexed by strings

---
 public_html/bomba.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 1f7d136..98ef05d 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -120,6 +120,8 @@ function makeCheckIfExpectedType(name, described, depth = 0) {
 		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
 		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
 		return result;
+	} else if (described === "object") {
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
-- 
2.43.0


From f077325835ceffd957865d098a2a80fa21f450b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 62/67] fix: the JavaScript client called toJson() of objects
 that have none and ignored what it returned

---
 public_html/bomba.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 98ef05d..0621350 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -212,9 +212,10 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 			code += `\tif (arg_${argNames[i]} != undefined) `;
 		}
 		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.constructor.name === "string")\n`;
+		code += `\t\tif (typeof arg_${argNames[i]}.toJson === "function")\n`;
 		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += `\t\telse\n`;
+		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
-- 
2.43.0


From 6eb76500f3bd646096a3c1e063d324a1dc71bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 63/67] fix: forms couldn't be generated for arguments or
 members that are tables indexed by strings, and members that are arrays were
 mistaken for their elements

---
 public_html/bomba.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 0621350..f71c7b1 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -94,6 +94,9 @@ function makeGuiForArg(name, type, identifier, types) {
 	} else if (Array.isArray(typeObtained)) {
 		const space = document.createElement("div");
 		return [space, () => { return []; }];
+	} else if (typeObtained === "object") {
+		const space = document.createElement("div");
+		return [space, () => { return {}; }];
 	} else {
 		const space = document.createElement("fieldset");
 		space.className = "bombaFrame";
@@ -165,7 +168,7 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", "${type}", undefined, types)\n`;
+		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", ${ JSON.stringify(type) }, undefined, types)\n`;
 		code += `\t\tcontainer.appendChild(elem_${name})\n`;
 		code += `\t\tvalueGetters.push(() => this.${name} = getter_${name}())\n`;
 	}
-- 
2.43.0


From d743efa5f23bf41d03551c11b83d0b0cf6a99ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 64/67] fix: the form of an interface with nested objects
 couldn't be generated

---
 public_html/bomba.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index f71c7b1..4ce9be5 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -319,7 +319,7 @@ export async function loadApi(path) {
 		let elementMakers = [];
 		for (const [subName, value] of Object.entries(api)) {
 			if (typeof value != "function") {
-				value.gui = makeApiGuiGenerator(value, subName);
+				makeApiGuiGenerator(value, subName);
 			}
 			elementMakers.push(value.gui);
 		}
@@ -328,7 +328,9 @@ export async function loadApi(path) {
 			if (name) {
 				container = document.createElement("details");
 				container.open = true;
-				container.appendChild(document.createElement(name));
+				const summary = document.createElement("summary");
+				summary.textContent = humanise(name);
+				container.appendChild(summary);
 			} else {
 				container = document.createElement("div");
 			}
-- 
2.43.0


From ff828479e282adb58ea479627248ffbe4a65f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 65/67] fix: files of 2 GiB or more were not served

---
 bomba_core.hpp            | 14 +++++++-------
 bomba_download_server.hpp |  2 +-
 bomba_http.hpp            |  5 ++---
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 09539b2..3d03750 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -447,7 +447,7 @@ private:
 class GeneralisedBuffer {
 	using BufferType = std::span<char>;
 	BufferType _buffer;
-	int _size = 0;
+	int64_t _size = 0;
 
 public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
@@ -465,9 +465,9 @@ public:
 	}
 
 	GeneralisedBuffer& operator+=(std::span<const char> added) {
-		int position = 0;
-		while (position < int(added.size())) {
-			int toCopy = std::min<int>(added.size() - position, remainingSpace());
+		size_t position = 0;
+		while (position < added.size()) {
+			size_t toCopy = std::min<size_t>(added.size() - position, remainingSpace());
 			memcpy(_buffer.data(), added.data() + position, toCopy);
 			_buffer = BufferType(_buffer.begin() + toCopy, _buffer.end());
 			_size += toCopy;
@@ -487,7 +487,7 @@ public:
 		return operator+=(std::span<const char>(added, strlen(added)));
 	}
 
-	int size() {
+	int64_t size() {
 		return _size;
 	}
 
@@ -496,7 +496,7 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
-	int remainingSpace() const {
+	size_t remainingSpace() const {
 		return _buffer.size();
 	}
 };
@@ -505,7 +505,7 @@ template <int StaticSize = 1024>
 class StreamingBuffer : public GeneralisedBuffer {
 protected:
 	std::array<char, StaticSize> _basic;
-	int _sizeAtLastFlush = 0;
+	int64_t _sizeAtLastFlush = 0;
 
 	bool bufferFull() override {
 		flush();
diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 37e04ee..2b91a83 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -136,7 +136,7 @@ public:
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
 				file.read(buffer.data(), amount);
 				if (file.gcount() != amount)
 					throw std::runtime_error("File could not be read");
diff --git a/bomba_http.hpp b/bomba_http.hpp
index 12550bb..b68873c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -715,14 +715,13 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, 24> sizeBuffer = {' '}; // Even the longest 64 bit integer must fit
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
-- 
2.43.0


From df7993f74b53d6dcf3b7af8a12b57eaf733e21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 66/67] fix: the TLS client appeared connected after it had
 failed to connect

---
 tls/tls_sync_client.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..4b058e6 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -24,8 +24,14 @@ class TlsSyncClient : public ITcpClient {
 	std::vector<char> _leftovers;
 	
 	void connect() {
-		_socket.next_layer().connect(_server);
-		_socket.handshake(boost::asio::ssl::stream_base::client);
+		boost::system::error_code error;
+		_socket.next_layer().connect(_server, error);
+		if (!error)
+			_socket.handshake(boost::asio::ssl::stream_base::client, error);
+		if (error) {
+			_socket = SocketType(_ioContext, _sslContext); // It would appear connected otherwise
+			remoteError(error.message());
+		}
 	}
 
 	void ensureConnected() {
-- 
2.43.0


From 716b2347eec6450578e983f17921384515686c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 67/67] fix: the TLS client lost responses that came together,
 in pieces or while polling

---
 tls/tls_sync_client.hpp | 62 ++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 4b058e6..c92e757 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -44,39 +44,51 @@ class TlsSyncClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				std::vector<char> response = std::move(found->second);
+				_responses.erase(found);
+				reader(response, true);
+			} else {
+				reader(found->second, true);
+			}
+			return;
 		}
 
-		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
-			std::error_code error;
-			if constexpr(!doWait) {
-				if (_socket.next_layer().available() == 0)
-					break;
-			}
-			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
-			if (error) {
-				remoteError(error.message().c_str());
-				break;
-			}
-			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
+		while (true) {
+			// There may be more responses in the data already received
 			while (!_leftovers.empty()) {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::DISCONNECT) {
+					remoteError("Malformed response");
 					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
+				}
+				if (reaction == ServerReaction::WRONG_REPLY)
 					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
+				else if constexpr(!doWait) // The response will be collected later
+					_responses.insert(std::make_pair(tokenSought, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
 			}
+
+			// Wait for a reply if none was received before
+			boost::system::error_code error;
+			if constexpr(!doWait) // Received data may be no response or not a whole one, or may be already waiting for decryption
+				_socket.next_layer().non_blocking(true);
+			auto received = _socket.read_some(boost::asio::buffer(responseBuffer), error);
+			if constexpr(!doWait) {
+				_socket.next_layer().non_blocking(false);
+				if (error == boost::asio::error::would_block)
+					return;
+			}
+			if (error || received == 0) {
+				remoteError(error ? error.message() : "Connection closed");
+				return;
+			}
+			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
 
-- 
2.43.0

