From ce222cfdff34ed7be5a509b64cc78031ba8255c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:05 +0000
Subject: [PATCH 01/84] fix: clear the thread handle when pthread_create fails

---
 include/cybozu/thread.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/thread.hpp b/include/cybozu/thread.hpp
index ad92897..2dd08ef 100644
--- a/include/cybozu/thread.hpp
+++ b/include/cybozu/thread.hpp
@@ -123,6 +123,7 @@ inline bool Begin(ThreadHandle& hdl, ThreadEntryCallback entryFct, void *arg, in
 		}
 	}
 	ret = pthread_create(&hdl, &attr, entryFct, arg);
+	if (ret) hdl = 0; // the contents of hdl are undefined on error
 EXIT:
 	if (pthread_attr_destroy(&attr)) {
 		perror("pthread_attr_destroy");
-- 
2.43.0


From 20b53283104e4e46ffd4c8fe8e93ad07f04c61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:05 +0000
Subject: [PATCH 02/84] fix: parallel_for joins the started threads when a
 later one can't begin

---
 include/cybozu/parallel.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..a4383e2 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -73,7 +73,11 @@ void parallel_for(T& target, N n, N threadNum)
 			begin = end;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			if (!thread[i].beginThread()) throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			if (!thread[i].beginThread()) {
+				// running threads must finish before thread[] is destroyed
+				for (N j = 0; j < i; j++) thread[j].joinThread();
+				throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			}
 		}
 		for (N i = 0; i < threadNum; i++) {
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
-- 
2.43.0


From b738fc5eb3dfdc9b18c84c264bc592be6288ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:05 +0000
Subject: [PATCH 03/84] fix: parallel_for reports an exception whose message is
 empty

---
 include/cybozu/parallel.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index a4383e2..dfedad4 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -20,12 +20,14 @@ struct Thread : public cybozu::ThreadBase {
 	N begin_;
 	N end_;
 	N threadIdx_;
+	bool hasErr_;
 	std::string err_;
 	Thread()
 		: t_(0)
 		, begin_(0)
 		, end_(0)
 		, threadIdx_(0)
+		, hasErr_(false)
 	{
 	}
 	void init(T& t, N begin, N end, N threadIdx)
@@ -34,6 +36,7 @@ struct Thread : public cybozu::ThreadBase {
 		begin_ = begin;
 		end_ = end;
 		threadIdx_ = threadIdx;
+		hasErr_ = false;
 		err_.clear();
 	}
 	void threadEntry()
@@ -42,11 +45,13 @@ struct Thread : public cybozu::ThreadBase {
 			try {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
+				hasErr_ = true;
 				err_ = e.what();
 				break;
 			}
 		}
 	}
+	bool hasErr() const { return hasErr_; }
 	const std::string& getErr() const { return err_; }
 };
 
@@ -84,7 +89,7 @@ void parallel_for(T& target, N n, N threadNum)
 		}
 		for (N i = 0; i < threadNum; i++) {
 			const std::string& err = thread[i].getErr();
-			if (!err.empty()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
+			if (thread[i].hasErr()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
 		}
 	}
 }
-- 
2.43.0


From e768286657c9b2cbbec5366e3ffd7494d09c704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:35 +0000
Subject: [PATCH 04/84] fix: Event(pipe version) loses or invents a wakeup when
 a signal interrupts it

---
 include/cybozu/event.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/event.hpp b/include/cybozu/event.hpp
index c871b96..bfed386 100644
--- a/include/cybozu/event.hpp
+++ b/include/cybozu/event.hpp
@@ -13,6 +13,7 @@
 	#include <windows.h>
 #else
 	#include <unistd.h>
+	#include <errno.h>
 #endif
 #include <cybozu/exception.hpp>
 #if CYBOZU_CPP_VERSION >= CYBOZU_CPP_VERSION_CPP11
@@ -106,13 +107,19 @@ public:
 	void wakeup()
 	{
 		char c = 'a';
-		ssize_t size = ::write(pipefd_[1], &c, 1);
+		ssize_t size;
+		do {
+			size = ::write(pipefd_[1], &c, 1);
+		} while (size < 0 && errno == EINTR);
 		cybozu::disable_warning_unused_variable(size);
 	}
 	void wait()
 	{
 		char c;
-		ssize_t size = ::read(pipefd_[0], &c, 1);
+		ssize_t size;
+		do {
+			size = ::read(pipefd_[0], &c, 1);
+		} while (size < 0 && errno == EINTR);
 		cybozu::disable_warning_unused_variable(size);
 	}
 };
-- 
2.43.0


From 38bfa87a69d2075d08b70f23522907212c1f58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 05/84] fix: Socket::bind and Socket::accept leak the
 descriptor the object already owns

---
 include/cybozu/socket.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..10647f8 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -580,6 +580,7 @@ public:
 	void bind(uint16_t port, int mode = allowIPv4 | allowIPv6)
 	{
 		const int family = (mode & allowIPv6) ? AF_INET6 : AF_INET;
+		close();
 		sd_ = ::socket(family, SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
@@ -672,6 +673,7 @@ public:
 	*/
 	void accept(Socket& client, SocketAddr *paddr = 0) const
 	{
+		client.close();
 		if (paddr) {
 			struct sockaddr *psa = &paddr->addr_.sa;
 			paddr->addrlen_ = sizeof(paddr->addr_);
-- 
2.43.0


From be1b7d1464e2f66de5dc863afcef90065aacd0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 06/84] fix: Socket::setLinger passes the address of a pointer
 instead of struct linger

---
 include/cybozu/socket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 10647f8..69f9787 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -712,7 +712,7 @@ public:
 		struct linger linger;
 		linger.l_onoff = l_onoff;
 		linger.l_linger = l_linger;
-		setSocketOption(SO_LINGER, &linger);
+		setSocketOption(SO_LINGER, linger);
 	}
 	/**
 		get receive buffer size
-- 
2.43.0


From d1279afc340f6c14d493526f0aa80284335aa7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 07/84] fix: SocketAddr::set leaks the first getaddrinfo result
 if forceIpV6

---
 include/cybozu/socket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 69f9787..9151e55 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -255,6 +255,7 @@ public:
 		const int s = getaddrinfo(address.c_str(), portStr, &hints, &result);
 		// s == EAI_AGAIN
 		if (s || forceIpV6) {
+			if (s == 0) freeaddrinfo(result);
 			hints.ai_family = AF_INET6;
 			hints.ai_flags |= AI_V4MAPPED;
 			if (getaddrinfo(address.c_str(), portStr, &hints, &result)) {
-- 
2.43.0


From 32efa6e9d110d58c33c58b915960898f03344f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 08/84] fix: ~File leaks the descriptor if sync fails

---
 include/cybozu/file.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..097dab1 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -163,6 +163,13 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		// close even if sync fails
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From 4d6323c986a7b8b3ff70aae599ee1ab53e07b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 09/84] fix: File::open(app) leaves the descriptor open if it
 can't seek

---
 include/cybozu/file.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 097dab1..0a67185 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -127,7 +127,15 @@ class File {
 		setHandle(name, mode);
 		if (isOpen()) {
 			if (mode & std::ios::app) {
-				seek(getSize(), std::ios::beg);
+				try {
+					seek(getSize(), std::ios::beg);
+				} catch (...) {
+					try {
+						close();
+					} catch (...) {
+					}
+					throw;
+				}
 			}
 			return;
 		}
-- 
2.43.0


From 9fbe719c1668703ee0b2bd8b8102e03880d96fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 10/84] fix: File::read never returns if the file ends before
 the buffer is filled

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 0a67185..748b24e 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -308,6 +308,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:readSize is zero") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From a7c91e2cc1c8cb35716b1a2d6f55ba6d81415186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:00 +0000
Subject: [PATCH 11/84] fix: LineStreamT(maxLineSize=1) can't hold a line and
 CRLF

---
 include/cybozu/line_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/line_stream.hpp b/include/cybozu/line_stream.hpp
index ac45ab1..46480ed 100644
--- a/include/cybozu/line_stream.hpp
+++ b/include/cybozu/line_stream.hpp
@@ -5,6 +5,7 @@
 */
 #include <string>
 #include <memory.h>
+#include <algorithm>
 #include <iosfwd>
 #include <cybozu/file.hpp>
 
@@ -58,7 +59,7 @@ public:
 	explicit LineStreamT(Reader& reader, size_t maxLineSize = 1024 * 2)
 		: reader_(reader)
 		, maxLineSize_(maxLineSize)
-		, buf_(maxLineSize * 2, 0)
+		, buf_((std::max)(maxLineSize * 2, maxLineSize + 2), 0) // maxLineSize + CRLF at least
 		, bufSize_(0)
 		, next_(buf_.data())
 		, eof_(false)
-- 
2.43.0


From 58ae584aa03a64f7fc597f8618d14aa1cfde9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:31 +0000
Subject: [PATCH 12/84] fix: process::Start uses uninitialized maxFd and closes
 the pipe which tells the failure of execv

---
 include/cybozu/process.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..29156d1 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -66,6 +66,7 @@ public:
 			fd_[mode] = -1;
 		}
 	}
+	int getFd(Mode mode) const { return fd_[mode]; }
 	int write(const char* buf, size_t size)
 	{
 		return ::write(fd_[Write], buf, size);
@@ -169,9 +170,10 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
+			const int pipeFd = pipe.getFd(Pipe::Write); // necessary to report that execv fails
 			for (int i = 3; i < maxFd; i++) {
-				close(i);
+				if (i != pipeFd) close(i);
 			}
 		}
 
-- 
2.43.0


From 4c7a31868e7a7b63af70b0e83db11c49d4c461c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:31 +0000
Subject: [PATCH 13/84] fix: process::Start leaves a zombie if execv fails

---
 include/cybozu/process.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 29156d1..2153d65 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -195,7 +195,8 @@ ERR_EXIT:
 		otherwise gets 'x' from child
 	*/
 	if (pipe.read(buf, 1) == 1) {
-		waitpid(pid, 0, WNOHANG);
+		while (waitpid(pid, 0, 0) < 0 && errno == EINTR) {
+		}
 		return false;
 	}
 
-- 
2.43.0


From 550b676abc2f2f6b83e3b031ba4ec7f578ae2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:31 +0000
Subject: [PATCH 14/84] fix: the child of process::Start flushes the stdio
 buffers of the parent if execv fails

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 2153d65..99756c7 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -184,7 +184,7 @@ ERR_EXIT:
 		*/
 		pipe.write("x", 1);
 		pipe.close(Pipe::Write);
-		::exit(1);
+		::_exit(1); // don't flush stdio buffers of the parent
 	}
 
 	pipe.close(Pipe::Write);
-- 
2.43.0


From 697452292799493444b2775977940c2ce25885be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:31 +0000
Subject: [PATCH 15/84] fix: process::Start reports success if a signal
 interrupts the pipe

---
 include/cybozu/process.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 99756c7..33ae2b5 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -73,7 +73,10 @@ public:
 	}
 	int read(char* buf, size_t size)
 	{
-		return ::read(fd_[Read], buf, size);
+		for (;;) {
+			int ret = ::read(fd_[Read], buf, size);
+			if (ret >= 0 || errno != EINTR) return ret;
+		}
 	}
 	~Pipe()
 	{
-- 
2.43.0


From 157ac3fdc9c5a8a2b74850b13764f95f27fc4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:57 +0000
Subject: [PATCH 16/84] fix: exception::makeString reads beyond the end of a
 NUL-terminated string

---
 include/cybozu/exception.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/exception.hpp b/include/cybozu/exception.hpp
index a9668ba..ec1cb97 100644
--- a/include/cybozu/exception.hpp
+++ b/include/cybozu/exception.hpp
@@ -63,7 +63,9 @@ namespace exception {
 /* get max 16 characters to avoid buffer overrun */
 inline std::string makeString(const char *str, size_t size)
 {
-	return std::string(str, std::min<size_t>(size, 16));
+	size_t n = 0;
+	while (n < size && n < 16 && str[n]) n++; // str may be NUL-terminated(size == -1)
+	return std::string(str, n);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 935c7bee349010dd8ca752afc143953cf010f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:57 +0000
Subject: [PATCH 17/84] fix: atoi accepts a minimum value followed by garbage
 and reads beyond the string

---
 include/cybozu/atoi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..2490c94 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -6,7 +6,7 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 
-#include <memory.h>
+#include <string.h>
 #include <limits>
 #include <cybozu/exception.hpp>
 
@@ -28,7 +28,7 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
 			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
+			if (isMinus && size - i >= n - 1 && strncmp(max, &p[i], n - 1) == 0 && (size - i == n - 1 || p[i + n - 1] == '\0')) {
 				if (b) *b = true;
 				return min;
 			}
-- 
2.43.0


From e38f326fa1d773554392428cedc2b28c1626ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 18/84] fix: CsvReader loses the last row without LF if its
 last field is empty and accepts a single quote at the end

---
 include/cybozu/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index f397105..9e832a5 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -75,7 +75,7 @@ public:
 		std::string str;
 		for (;;) {
 			int c = my_getchar();
-			if (c == EOF && str.empty()) return false;
+			if (c == EOF && state == Top && out.empty()) return false;
 			if (c == CR) continue;
 			switch (state) {
 			case Top:
-- 
2.43.0


From 5688777db9e4881133e314d9cbaff4981b81ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 19/84] fix: CsvReader applies MAX_LINE_SIZE to the whole file
 instead of one line

---
 include/cybozu/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index 9e832a5..170ceec 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -60,6 +60,7 @@ public:
 	{
 		if (eof_) return false;
 		line_++;
+		lineSize_ = 0;
 		out.clear();
 		enum {
 			Top,
-- 
2.43.0


From b2a852a4147dffbf083bab12ab9615d5762905b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 20/84] fix: CsvReader takes the byte 0xff for the end of the
 stream

---
 include/cybozu/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index 170ceec..f487cfe 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -154,12 +154,12 @@ private:
 	int my_getchar()
 	{
 		if (pos_ < bufSize_) {
-			return buf_[pos_++];
+			return static_cast<unsigned char>(buf_[pos_++]);
 		}
 		bufSize_ = cybozu::readSome(buf_, sizeof(buf_), is_);
 		if (bufSize_ > 0) {
 			pos_ = 1;
-			return buf_[0];
+			return static_cast<unsigned char>(buf_[0]);
 		} else {
 			pos_ = 0;
 			eof_ = true;
-- 
2.43.0


From 48a6c4f129d9f4973413f5bd0c6597e81598ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 21/84] fix: load of set, map and unordered_map keeps the old
 elements

---
 include/cybozu/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8deb19a..aa223c6 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -294,6 +294,7 @@ void load(Container<K, Pred, Alloc>& x, InputStream& is, typename stream_local::
 {
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		K t;
 		load(t, is);
@@ -318,6 +319,7 @@ void load(Container<K, V, Pred, Alloc>& x, InputStream& is, typename stream_loca
 	typedef Container<K, V, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		std::pair<typename Map::key_type, typename Map::mapped_type> vt;
 		load(vt.first, is);
@@ -344,6 +346,7 @@ void load(Container<K, V, Hash, Pred, Alloc>& x, InputStream& is, typename strea
 	typedef Container<K, V, Hash, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 //	x.reserve(size); // tr1::unordered_map may not have reserve
 	cybozu::serializer_local::reserve_if_exists(x, size);
 	for (size_t i = 0; i < size; i++) {
-- 
2.43.0


From 6839e84c7fd80724a89e024e0189708db37592f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 22/84] fix: assigning a cybozu::String or a part of it to
 itself clears it

---
 include/cybozu/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..920a39a 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -615,7 +615,7 @@ public:
 	*/
 	StringT& assign(const StringT& str)
 	{
-		clear(); return append(str);
+		str_.assign(str.str_); return *this;
 	}
 
 	/**
@@ -626,7 +626,7 @@ public:
 	*/
 	StringT& assign(const StringT& str, size_type off, size_type count)
 	{
-		clear(); return append(str, off, count);
+		str_.assign(str.str_, off, count); return *this;
 	}
 
 	/**
@@ -636,7 +636,7 @@ public:
 	*/
 	StringT& assign(const CharT *str, size_type count)
 	{
-		return assign(str, str + count);
+		str_.assign(str, count); return *this;
 	}
 
 	/**
@@ -645,7 +645,7 @@ public:
 	*/
 	StringT& assign(const CharT *str)
 	{
-		clear(); return append(str);
+		str_.assign(str); return *this;
 	}
 	StringT& assign(const Char16 *str)
 	{
-- 
2.43.0


From 243a0c01aa2241992b04f60512cd63dbfacb3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 23/84] fix: String::append(ptr, count) reads freed memory if
 ptr points into the string

---
 include/cybozu/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 920a39a..3d27241 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -524,7 +524,7 @@ public:
 	*/
 	StringT& append(const CharT *str, size_type count)
 	{
-		return append(str, str + count);
+		str_.append(str, count); return *this;
 	}
 
 	/**
-- 
2.43.0


From 64a4ad82d07b63ad4d31d2701feacd0ce215821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 24/84] fix: a negative cybozu::Char is treated as a valid one
 byte character

---
 include/cybozu/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 3d27241..522ce52 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (c < 0) return 0; // Char may be signed
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -216,6 +217,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
+	if (c < 0) return 0; // Char may be signed
 	if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
@@ -243,6 +245,7 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
+	if (c < 0) return 0; // Char may be signed
 	if (c <= 0xffff) {
 		out[0] = static_cast<Char16>(c);
 		return 1;
-- 
2.43.0


From 661747602dedfc7b869f43b4cdbfac123cef5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 25/84] fix: UTF-16 conversion accepts and generates an
 unpaired surrogate

---
 include/cybozu/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 522ce52..32fe48d 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -201,6 +201,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 	};
 	Char16 c0 = *begin++;
 	if (!string_local::isLead(c0)) {
+		if (string_local::isTrail(c0)) return false;
 		c = c0;
 		return true;
 	}
@@ -247,6 +248,9 @@ inline int toUtf16(Char16 out[2], Char c)
 {
 	if (c < 0) return 0; // Char may be signed
 	if (c <= 0xffff) {
+		if (0xd7ff < c && c <= 0xdfff) {
+			return 0;
+		}
 		out[0] = static_cast<Char16>(c);
 		return 1;
 	} else if (c <= 0x0010ffff) {
-- 
2.43.0


From d73709c121f5b6220ba583413bcb2fcc6b1b76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 26/84] fix: ToLower(s, s, DoAppend) writes beyond the string

---
 include/cybozu/string_operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index 92a0ddf..a053356 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -126,9 +126,10 @@ inline Iterator GetTrimPosition(Iterator begin, Iterator &end, bool (*isSpace)(t
 template<class StringT1, class StringT2, class Func>
 void ChangeCase(StringT1& out, const StringT2& in, Func f, bool doAppend)
 {
-	size_t offset = doAppend ? out.size() : 0;
-	out.resize(offset + in.size());
-	std::transform(in.begin(), in.end(), out.begin() + offset, f);
+	const size_t offset = doAppend ? out.size() : 0;
+	const size_t n = in.size(); // in may be out
+	out.resize(offset + n);
+	std::transform(in.begin(), in.begin() + n, out.begin() + offset, f);
 }
 
 template<class CharT>struct SelectString;
-- 
2.43.0


From ef45fe486ff3e3ecaee3563c32e0953d4037002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 27/84] fix: CaseFind reads beyond a non ASCII target converted
 to cybozu::String

---
 include/cybozu/string_operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index a053356..ac85a8b 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -281,9 +281,9 @@ bool CaseEqual(const StringT& lhs, const char *rhs)
 template<class CharT>
 const CharT *CaseFind(const CharT *begin, const CharT *end, const char *targetBegin, const char *targetEnd = 0)
 {
-	const size_t n = targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin);
-	typename string_local::SelectString<CharT>::string_type t(targetBegin, n);
+	typename string_local::SelectString<CharT>::string_type t(targetBegin, targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin));
 	ToLower(t);
+	const size_t n = t.size();
 	while (begin + n <= end) {
 		bool found = true;
 		for (size_t i = 0; i < n; i++) {
-- 
2.43.0


From 2d106e536147256f42c04bb3ec7dfa89b1cbea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 28/84] fix: Config accepts an empty key and an empty section
 name

---
 include/cybozu/config.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/config.hpp b/include/cybozu/config.hpp
index 1959342..1814e50 100644
--- a/include/cybozu/config.hpp
+++ b/include/cybozu/config.hpp
@@ -56,6 +56,9 @@ inline void split(std::string& key, std::string& value, const std::string& line)
 	}
 	key = line.substr(0, q - p);
 	trimEndSpace(key);
+	if (key.empty()) {
+		throw cybozu::Exception("config:split:no key") << line;
+	}
 	char badChar;
 	if (!cybozu::config_local::isName(key, &badChar)) {
 		throw cybozu::Exception("config:split:bad key") << key << badChar;
@@ -151,6 +154,9 @@ public:
 		*/
 		void append(const std::string& key, const std::string& value)
 		{
+			if (key.empty()) {
+				throw cybozu::Exception("config:append:no key") << value;
+			}
 			char badChar;
 			if (!config_local::isName(key, &badChar)) {
 				throw cybozu::Exception("config:append:bad key") << key << badChar;
@@ -356,7 +362,7 @@ public:
 			if (c == ';' || c == '#') continue;
 			// section
 			if (c == '[') {
-				if (line[n - 1] != ']') {
+				if (n <= 2 || line[n - 1] != ']') {
 					throw cybozu::Exception("config:load:bad section") << line;
 				}
 				section = appendSection(line.substr(1, n - 2));
-- 
2.43.0


From 5b3b4ad97e62ef0a9c9f2e4749df69595b3bd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 29/84] fix: MiniXml takes <name/> for the start tag of "name/"

---
 include/cybozu/minixml.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e22c891..0306712 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -362,6 +362,12 @@ struct InputStream {
 			if (c != '>') throw cybozu::Exception("xml:parseTag:invalid tag") << name;
 			return EndTag;
 		}
+		if (!empty() && query() == '>' && name[name.size() - 1] == '/') { // <name/>
+			name.resize(name.size() - 1);
+			if (name.empty()) throw cybozu::Exception("xml:parseTag:invalid tag3");
+			inc();
+			return CompleteTag;
+		}
 		bool ret = parseAttributes(attr);
 		return ret ? CompleteTag : BeginTag;
 	}
-- 
2.43.0


From f0a3561198c352b4c7451198e334df863fa84a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 30/84] fix: MiniXml leaks the nodes if the constructor throws
 or parse is called again

---
 include/cybozu/minixml.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 0306712..ebed16b 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -412,6 +412,8 @@ class MiniXml {
 		is.skipSpace();
 		std::string w = is.getWord(minixml::isName);
 		if (w != "<?xml") throw cybozu::Exception("xml:readHeader:") << w;
+		delete root_;
+		root_ = 0;
 		root_ = new minixml::Node();
 		is.parseAttributes(xmlAttr_, false);
 	}
@@ -425,7 +427,12 @@ public:
 	MiniXml(const char *begin, const char *end)
 		: root_(0)
 	{
-		parse(begin, end);
+		try {
+			parse(begin, end);
+		} catch (...) {
+			delete root_;
+			throw;
+		}
 	}
 	template<class InputStream>
 	void parse(InputStream& is)
-- 
2.43.0


From 9c1e0c37d427a362b17693b9b7ce62fafd896edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 31/84] fix: Option ignores a bad value for appendParamVec

---
 include/cybozu/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 5dac705..ada1d0d 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -619,7 +619,10 @@ public:
 				}
 				if (!used) {
 					if (paramMode_ == P_variable) {
-						remains_.var.set(argv[pos]);
+						if (!remains_.var.set(argv[pos])) {
+							err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for " + remains_.opt);
+							goto ERR;
+						}
 					} else {
 						err.set(OptionError::REDUNDANT_VAL, pos) << argv[pos];
 						goto ERR;
-- 
2.43.0


From c62d1c495b0fbd678210c244cd9b8d7a365ef447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 32/84] fix: Option exits the program on "-" if no help option
 is registered

---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index ada1d0d..5f88659 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -553,7 +553,7 @@ public:
 			}
 			if (isOpt(argv[pos])) {
 				const std::string str = argv[pos] + 1;
-				if (helpOpt_ == str) {
+				if (!helpOpt_.empty() && helpOpt_ == str) {
 					usage();
 					exit(0);
 				}
-- 
2.43.0


From 11eba0c20f85fc1793e678dbf018c0abb336633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 33/84] fix: Time::fromString reads beyond a short string to
 make the error message

---
 include/cybozu/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index fbf7355..21c1347 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -160,7 +160,7 @@ public:
 			*pb = false;
 			return;
 		}
-		throw cybozu::Exception("time::fromString") << std::string(begin, 24);
+		throw cybozu::Exception("time::fromString") << std::string(begin, len < 24 ? len : 24);
 	}
 	void fromString(const char *begin, const char *end) { fromString(0, begin, end); }
 
-- 
2.43.0


From 3a14343a4c9e4d72e86868ad9f5a80a9103a7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 34/84] fix: Time::fromString reads beyond the end of a string
 with a month name which lacks a digit

---
 include/cybozu/time.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 21c1347..f72446d 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -109,6 +109,7 @@ public:
 
 			p = getMonth(&num, p);
 			if (p == 0) goto ERR;
+			if (end - p < 12) goto ERR; // length of "-23T02:53:44"
 			tm.tm_mon = num;
 			if (*p++ != sep) goto ERR;
 
-- 
2.43.0


From 95fc7297e540725febdd8667db2db28cecb18796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:19 +0000
Subject: [PATCH 35/84] fix: Time::fromString accepts -0 and a field cut by NUL

---
 include/cybozu/time.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index f72446d..dc2b2ce 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -232,6 +232,10 @@ private:
 
 	int getNum(bool *b, const char *in, size_t len, int min, int max) const
 	{
+		*b = false;
+		for (size_t i = 0; i < len; i++) {
+			if (!('0' <= in[i] && in[i] <= '9')) return 0; // atoi accepts '-' and NUL
+		}
 		int ret = cybozu::atoi(b, in, len);
 		if (min <= ret && ret <= max) {
 			return ret;
-- 
2.43.0


From f91d230fc9a2eaaa76cd178af3095f9ae330f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:15 +0000
Subject: [PATCH 36/84] fix: BitVectorT::init keeps the bits beyond bitLen

---
 include/cybozu/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..63ee6f2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -200,7 +200,7 @@ public:
 	void init(const T *buf, size_t bitLen)
 	{
 		resize(bitLen);
-		std::copy(buf, buf + v_.size(), &v_[0]);
+		CopyBit<T>(v_.data(), buf, bitLen);
 	}
 	void resize(size_t bitLen)
 	{
-- 
2.43.0


From 8cb87a81697a2567d859c3dfd6d87f3b840304a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 37/84] fix: BitVectorT of different sizes compare equal

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 63ee6f2..f7be983 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -345,8 +345,8 @@ public:
 		}
 		return v;
 	}
-	bool operator==(const BitVectorT<T>& rhs) const { return v_ == rhs.v_; }
-	bool operator!=(const BitVectorT<T>& rhs) const { return v_ != rhs.v_; }
+	bool operator==(const BitVectorT<T>& rhs) const { return bitLen_ == rhs.bitLen_ && v_ == rhs.v_; }
+	bool operator!=(const BitVectorT<T>& rhs) const { return !operator==(rhs); }
 };
 
 #if (CYBOZU_OS_BIT == 32)
-- 
2.43.0


From 3b9987f1c58cb9df31193bf1b85e938d6f5024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 38/84] fix: BitVectorT::append(src, unitBitSize) appends the
 upper bits of src

---
 include/cybozu/bitvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index f7be983..e159851 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -274,6 +274,7 @@ public:
 		if (bitLen > unitBitSize) {
 			throw cybozu::Exception("BitVectorT:append:bad bitLen") << bitLen;
 		}
+		src = T(src);
 		if (bitLen < unitBitSize) {
 			src &= GetMaskBit<T>(bitLen);
 		}
-- 
2.43.0


From dbc0edf08977b0e594414025722a1d7ed3816b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 39/84] fix: BitVectorT::append(*this) reads freed memory

---
 include/cybozu/bitvector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index e159851..2eac7a5 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -295,6 +295,11 @@ public:
 	*/
 	void append(const BitVectorT<T>& v)
 	{
+		if (&v == this) {
+			const BitVectorT<T> copy(v);
+			append(copy);
+			return;
+		}
 		append(v.getBlock(), v.size());
 	}
 	/*
-- 
2.43.0


From e7aabacd869a166e352e3c7558b20ce7f091fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 40/84] fix: BitVectorT::extract accepts a position which wraps
 around

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 2eac7a5..c0a8e92 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -308,7 +308,7 @@ public:
 	void extract(T* dst, size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return;
-		if (pos + bitLen > bitLen_) {
+		if (bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
@@ -333,7 +333,7 @@ public:
 	T extract(size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return 0;
-		if (bitLen > unitBitSize || pos + bitLen > bitLen_) {
+		if (bitLen > unitBitSize || bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
-- 
2.43.0


From e94ba02ebb2a0d107efcdd71ac85d9e676ad089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 41/84] fix: SucVectorT counts the padding as zeros

---
 include/cybozu/sucvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 54c3039..97e2c23 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -176,7 +176,7 @@ class SucVectorT {
 				subNum1 += c;
 			}
 		}
-		numTbl_[0] = blkNum * 64 - num1;
+		numTbl_[0] = bitSize_ - num1;
 		numTbl_[1] = num1;
 		initSelTbl();
 		freezed_ = true;
-- 
2.43.0


From 51ef479d8505d6aff9d688b991bf6dcf93a9b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:34 +0000
Subject: [PATCH 42/84] fix: SucVectorT::init counts the bits of buf beyond
 bitSize

---
 include/cybozu/sucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 97e2c23..8996395 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -164,6 +164,7 @@ class SucVectorT {
 				uint64_t v;
 				if (buf) {
 					v = pos < blkNum ? buf[pos++] : 0;
+					if (pos == blkNum && (bitSize_ & 63)) v &= cybozu::makeBitMask64(bitSize_ & 63);
 					blk.org[j] = v;
 				} else {
 					v = blk.org[j];
-- 
2.43.0


From 80170fc92ae174a93f033b21f8ddd981d53c41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:34 +0000
Subject: [PATCH 43/84] fix: SucVectorT::set is accepted after load

---
 include/cybozu/sucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 8996395..253de41 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -216,6 +216,7 @@ public:
 		} else {
 			initSelTbl();
 		}
+		freezed_ = true;
 	}
 	SucVectorT() : bitSize_(0), freezed_(false) { numTbl_[0] = numTbl_[1] = 0; }
 	SucVectorT(const uint64_t *buf, uint64_t bitSize)
-- 
2.43.0


From fb583593e145f5b6e9e983b71220925a49a6a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 44/84] fix: CSucVector::init exits the process if the most
 frequent pair cannot be joined

---
 include/cybozu/csucvector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index f28d287..0a24c62 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -156,7 +156,10 @@ struct Bigram {
 	{
 		PairMap m;
 		getPairMap(m);
-		return concatPair(v, len, m.begin()->second);
+		for (PairMap::const_iterator i = m.begin(), ie = m.end(); i != ie; ++i) {
+			if (concatPair(v, len, i->second)) return true;
+		}
+		return false;
 	}
 	void put() const
 	{
-- 
2.43.0


From d0fedad9e3f009fec3e882f6f4a3f19d1227dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 45/84] fix: CSucVector::init keeps the index of the previous
 contents

---
 include/cybozu/csucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index 0a24c62..ed4f539 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -493,6 +493,7 @@ struct CSucVector {
 	}
 	void initBlockVec()
 	{
+		blkVec.clear();
 		blkVec.reserve(bitSize_ / skip + 16);
 		uint32_t orgPos = 0;
 		uint32_t rk = 0;
-- 
2.43.0


From d0bdeedccc0e27990d5a873c43d46fbc0516c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 46/84] fix: CSucVector counts the bits beyond bitSize

---
 include/cybozu/csucvector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index ed4f539..8c6cd1e 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -63,14 +63,19 @@ struct InputStream {
 		: block_(block), bitSize_(bitSize), blockSize_((bitSize + 63) / 64), cur_(0)
 	{
 	}
+	uint64_t getBlock(size_t q) const
+	{
+		const size_t r = bitSize_ & 63;
+		return q == blockSize_ - 1 && r > 0 ? block_[q] & getMask(r) : block_[q];
+	}
 	uint64_t peek(size_t offset = 0) const
 	{
 		const size_t q = (cur_ + offset) / 64;
 		const size_t r = (cur_ + offset) & 63;
 		if (q >= blockSize_) return 0;
-		if (r == 0) return block_[q];
-		uint64_t L = block_[q];
-		uint64_t H = q < blockSize_ - 1 ? block_[q + 1] : 0;
+		if (r == 0) return getBlock(q);
+		uint64_t L = getBlock(q);
+		uint64_t H = q < blockSize_ - 1 ? getBlock(q + 1) : 0;
 		return ((L >> r) & getMask(64 - r)) | (H << (64 - r));
 	}
 	void consume(size_t size)
-- 
2.43.0


From 571cfa6d2af9362847b94d503410b3c2dfb0c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 47/84] fix: copied Frequency refers to the elements of the
 original

---
 include/cybozu/frequency.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cybozu/frequency.hpp b/include/cybozu/frequency.hpp
index 851ce45..6049cc9 100644
--- a/include/cybozu/frequency.hpp
+++ b/include/cybozu/frequency.hpp
@@ -177,6 +177,21 @@ public:
 		clear();
 		init(begin, end);
 	}
+	Frequency(const Frequency& rhs)
+		: m_(rhs.m_)
+		, idx2ref_(rhs.idx2ref_.size())
+	{
+		for (size_t i = 0, n = idx2ref_.size(); i < n; i++) {
+			idx2ref_[i] = m_.find(rhs.idx2ref_[i]->first);
+		}
+	}
+	Frequency& operator=(const Frequency& rhs)
+	{
+		Frequency copy(rhs);
+		m_.swap(copy.m_);
+		idx2ref_.swap(copy.idx2ref_);
+		return *this;
+	}
 	void clear()
 	{
 		m_.clear();
-- 
2.43.0


From 91a0e8f8ea234aa7d3e8928bb60feb31544448d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 48/84] fix: FMindexT::init keeps the previous contents

---
 include/cybozu/fmindex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 161c5c4..e610a77 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -88,6 +88,7 @@ public:
 				sum += charNumTbl[i];
 			}
 		} else {
+			freq.clear();
 			freq.init(begin, end);
 			charNum_ = freq.size() + 1; // +1 means last zero
 			if (charNum_ > maxCharNum) throw cybozu::Exception("FMindexT:initCf:too many alphabet");
@@ -160,6 +161,7 @@ public:
 #if 1
 		cybozu::BitVector bv;
 		bv.resize(dataSize);
+		alignedSa.clear();
 		for (size_t i = 0; i < dataSize; i++) {
 			if ((sa[i] % skip) == 0) {
 				bv.set(i);
-- 
2.43.0


From d928ec6382d5381d875c539c522bb26815669397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 49/84] fix: FMindexT<uint16_t> cannot use 65536 characters

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index e610a77..39822f3 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -156,7 +156,7 @@ public:
 		}
 		Vec bwt;
 		initBwt(bwt, v, sa);
-		wm.init(bwt, getBitLen(charNum_));
+		wm.init(bwt, getBitLen(charNum_ - 1));
 
 #if 1
 		cybozu::BitVector bv;
-- 
2.43.0


From de38ec89172a1f2881dac65178fedb6196c542cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 50/84] fix: FMindexT::load sets charNum_ without the
 terminator

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 39822f3..d7eb4ad 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -279,7 +279,7 @@ public:
 			charNum_ = size_t(1) << (sizeof(T) * 8);
 		} else {
 			freq.load(is);
-			charNum_ = freq.size();
+			charNum_ = freq.size() + 1;
 		}
 	}
 };
-- 
2.43.0


From ebf5dffd680acb3e9877f69b5a9c97cb3952f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:38 +0000
Subject: [PATCH 51/84] fix: FMindexT::init ignores that the suffix sort ran
 out of memory

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index d7eb4ad..e473528 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -151,7 +151,7 @@ public:
 
 		Vec32 sa;
 		sa.resize(dataSize);
-		if (saisxx(&v[0], &sa[0], (int)dataSize, (int)charNum_) == -1) {
+		if (saisxx(&v[0], &sa[0], (int)dataSize, (int)charNum_) != 0) {
 			throw cybozu::Exception("FMindexT:init:saisxx");
 		}
 		Vec bwt;
-- 
2.43.0


From 6856b490615c38651849ed6885d55ea334e07c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:40 +0000
Subject: [PATCH 52/84] fix: ZlibDecompressorT does not verify the checksum and
 the size of a gzip stream

---
 include/cybozu/zlib.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..332fb8a 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -162,6 +162,7 @@ class ZlibDecompressorT {
 	char buf_[maxBufSize];
 	const bool useGzip_;
 	bool readGzipHeader_;
+	bool readGzipTail_;
 	void readAll(char *buf, size_t size)
 	{
 		cybozu::read(buf, size, is_);
@@ -216,6 +217,18 @@ class ZlibDecompressorT {
 		}
 		throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipHeader:bad gzip header") << std::string(header, 10);
 	}
+	void readGzipTail()
+	{
+		char tail[8];
+		const size_t n = z_.avail_in < sizeof(tail) ? z_.avail_in : sizeof(tail);
+		memcpy(tail, z_.next_in, n);
+		z_.next_in += n;
+		z_.avail_in -= (uint32_t)n;
+		readAll(tail + n, sizeof(tail) - n);
+		if (cybozu::Get32bitAsLE(&tail[0]) != crc_ || cybozu::Get32bitAsLE(&tail[4]) != totalSize_) {
+			throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipTail:bad crc or size");
+		}
+	}
 	ZlibDecompressorT(const ZlibDecompressorT&);
 	void operator=(const ZlibDecompressorT&);
 public:
@@ -231,6 +244,7 @@ public:
 		, ret_(Z_OK)
 		, useGzip_(useGzip)
 		, readGzipHeader_(false)
+		, readGzipTail_(false)
 	{
 		z_.zalloc = Z_NULL;
 		z_.zfree = Z_NULL;
@@ -280,7 +294,16 @@ public:
 			}
 		} while (size == z_.avail_out);
 
-		return size - z_.avail_out;
+		const uint32_t readSize = size - z_.avail_out;
+		if (useGzip_) {
+			crc_ = crc32(crc_, (const Bytef *)buf, readSize);
+			totalSize_ += readSize;
+			if (ret_ == Z_STREAM_END && !readGzipTail_) {
+				readGzipTail();
+				readGzipTail_ = true;
+			}
+		}
+		return readSize;
 	}
 	bool isEmpty() const { return ret_ == Z_STREAM_END; }
 	void read(void *buf, size_t size)
-- 
2.43.0


From b40f8f77878ab9a2c98b78c4c5c990d043560ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:40 +0000
Subject: [PATCH 53/84] fix: ZlibDecompressorT::readSome throws for an empty
 buffer

---
 include/cybozu/zlib.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 332fb8a..5eb2f1e 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -274,6 +274,7 @@ public:
 	size_t readSome(void *buf, size_t _size)
 	{
 		if (_size >= (1u << 31)) throw cybozu::Exception("zlib:ZlibDecompressorT:readSome:too large size") << _size;
+		if (_size == 0) return 0;
 		uint32_t size = (uint32_t)_size;
 		if (useGzip_ && !readGzipHeader_) {
 			readGzipHeader();
-- 
2.43.0


From 37422353cf9c7260e2c2a795497020667e8cee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:40 +0000
Subject: [PATCH 54/84] fix: ZlibCompressorT leaks if the header cannot be
 written

---
 include/cybozu/zlib.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 5eb2f1e..4aba602 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -69,7 +69,12 @@ public:
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit2") << zlib_local::safePtr(z_.msg);
 			}
 			char header[] = "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03"; /* OS_CODE = 0x03(Unix) */
-			write_os(header, 10);
+			try {
+				write_os(header, 10);
+			} catch (...) {
+				deflateEnd(&z_);
+				throw;
+			}
 		} else {
 			if (deflateInit(&z_, compressionLevel) != Z_OK) {
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit") << zlib_local::safePtr(z_.msg);
-- 
2.43.0


From 38d73c6a037cbd1d7232351bc7acce3b2441a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 55/84] fix: copy of Sha256/Sha512 (OpenSSL) must not share the
 digest context

The implicit copy shared EVP_MD_CTX, which was then freed twice.
---
 include/cybozu/sha2.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index b977a4c..bba5474 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -64,6 +64,20 @@ struct NewHash {
 	{
 		EVP_MD_CTX_free(mdctx_);
 	}
+	NewHash(const NewHash& rhs)
+		: mdctx_(EVP_MD_CTX_new())
+		, md_(rhs.md_)
+	{
+		EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+	}
+	NewHash& operator=(const NewHash& rhs)
+	{
+		if (this != &rhs) {
+			EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_);
+			md_ = rhs.md_;
+		}
+		return *this;
+	}
 	void clear()
 	{
 		EVP_MD_CTX_reset(mdctx_);
-- 
2.43.0


From 838e37afa45a2f44fce871bd44692d3421ce23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 56/84] fix: copy of crypto::Hash must not share the digest
 context

The implicit copy shared EVP_MD_CTX, which was then freed twice.
---
 include/cybozu/crypto.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 78c95e0..c6d3d8d 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -127,6 +127,22 @@ public:
 	{
 		EVP_MD_CTX_free(ctx_);
 	}
+	Hash(const Hash& rhs)
+		: name_(rhs.name_)
+		, hashSize_(rhs.hashSize_)
+		, ctx_(EVP_MD_CTX_new())
+	{
+		EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+	}
+	Hash& operator=(const Hash& rhs)
+	{
+		if (this != &rhs) {
+			EVP_MD_CTX_copy_ex(ctx_, rhs.ctx_);
+			name_ = rhs.name_;
+			hashSize_ = rhs.hashSize_;
+		}
+		return *this;
+	}
 #endif
 	void update(const void *buf, size_t bufSize)
 	{
-- 
2.43.0


From 446f7eb9958142e2d40ad4de12244ce29eb77b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 57/84] fix: crypto::Cipher leaked its context when the name is
 bad

---
 include/cybozu/crypto.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index c6d3d8d..8cfab92 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -315,8 +315,6 @@ public:
 		: cipher_(0)
 		, ctx_(0)
 	{
-		ctx_ = EVP_CIPHER_CTX_new();
-		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
 		switch (name) {
 		case N_AES128_CBC: cipher_ = EVP_aes_128_cbc(); break;
 		case N_AES192_CBC: cipher_ = EVP_aes_192_cbc(); break;
@@ -327,6 +325,8 @@ public:
 		default:
 			throw cybozu::Exception("crypto:Cipher:Cipher:name") << (int)name;
 		}
+		ctx_ = EVP_CIPHER_CTX_new();
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
 	}
 	~Cipher()
 	{
-- 
2.43.0


From 99bd3b0e08ed6d6815136ce3978c35601f5f69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 58/84] fix: copy of crypto::Cipher must not share the cipher
 context

The implicit copy shared EVP_CIPHER_CTX, which was then freed twice.
---
 include/cybozu/crypto.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 8cfab92..bc9ce85 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -328,6 +328,23 @@ public:
 		ctx_ = EVP_CIPHER_CTX_new();
 		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
 	}
+	Cipher(const Cipher& rhs)
+		: cipher_(rhs.cipher_)
+		, ctx_(EVP_CIPHER_CTX_new())
+	{
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_new");
+		if (EVP_CIPHER_CTX_cipher(rhs.ctx_) && EVP_CIPHER_CTX_copy(ctx_, rhs.ctx_) != 1) {
+			EVP_CIPHER_CTX_free(ctx_);
+			throw cybozu::Exception("crypto:Cipher:EVP_CIPHER_CTX_copy");
+		}
+	}
+	Cipher& operator=(const Cipher& rhs)
+	{
+		Cipher tmp(rhs);
+		std::swap(cipher_, tmp.cipher_);
+		std::swap(ctx_, tmp.ctx_);
+		return *this;
+	}
 	~Cipher()
 	{
 		if (ctx_) EVP_CIPHER_CTX_free(ctx_);
-- 
2.43.0


From 8466084e0e33c5ea9c16b9e42795f0e192f05954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 59/84] fix: crypto::Cipher::setup read past the end of a short
 iv

---
 include/cybozu/crypto.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index bc9ce85..e9b7598 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -360,6 +360,12 @@ public:
 			throw cybozu::Exception("crypto:Cipher:setup:keyLen") << keyLen << expectedKeyLen;
 		}
 
+		const int ivLen = static_cast<int>(iv.size());
+		const int expectedIvLen = EVP_CIPHER_iv_length(cipher_);
+		if (ivLen < expectedIvLen) {
+			throw cybozu::Exception("crypto:Cipher:setup:ivLen") << ivLen << expectedIvLen;
+		}
+
 		int ret = EVP_CipherInit_ex(ctx_, cipher_, NULL, cybozu::cast<const uint8_t*>(key.c_str()), cybozu::cast<const uint8_t*>(iv.c_str()), mode == Encoding ? 1 : 0);
 		if (ret != 1) {
 			throw cybozu::Exception("crypto:Cipher:setup:EVP_CipherInit_ex") << ret;
@@ -368,13 +374,6 @@ public:
 		if (ret != 1) {
 			throw cybozu::Exception("crypto:Cipher:setup:EVP_CIPHER_CTX_set_padding") << ret;
 		}
-/*
-		const int ivLen = static_cast<int>(iv.size());
-		const int expectedIvLen = EVP_CIPHER_CTX_iv_length(&ctx_);
-		if (ivLen != expectedIvLen) {
-			throw cybozu::Exception("crypto:Cipher:setup:ivLen") << ivLen << expectedIvLen;
-		}
-*/
 	}
 	/*
 		the size of outBuf must be larger than inBufSize + blockSize
-- 
2.43.0


From fab6a7ca23e10172dbba5375437e460672f3fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 60/84] fix: AlignedArray allocated a too small buffer if size
 * sizeof(T) overflows

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..3c0fea1 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -77,6 +77,7 @@ class AlignedArray {
 	size_t allocSize_;
 	T *alloc(size_t size) const
 	{
+		if (size > size_t(-1) / sizeof(T)) throw std::bad_alloc();
 		T *p = static_cast<T*>(AlignedMalloc(size * sizeof(T), N));
 		if (p == 0) throw std::bad_alloc();
 		return p;
-- 
2.43.0


From 0a6c43e2a5306bd610ff96070a6f74e711c32a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 61/84] fix: RandomGenerator::read truncated the byte size to
 int

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From dca6b3a87657d786fb7edeccf7d82dbc98cb63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 62/84] fix: Pcg32::read did not compile for element types
 other than uint8_t, uint32_t, uint64_t

---
 include/cybozu/pcg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/pcg.hpp b/include/cybozu/pcg.hpp
index a02739b..ea85556 100644
--- a/include/cybozu/pcg.hpp
+++ b/include/cybozu/pcg.hpp
@@ -50,7 +50,7 @@ public:
 	void read(T *x, size_t n)
 	{
 		const size_t size = sizeof(T) * n;
-		uint8_t *p8 = static_cast<uint8_t*>(x);
+		uint8_t *p8 = reinterpret_cast<uint8_t*>(x);
 		for (size_t i = 0; i < size; i++) {
 			p8[i] = static_cast<uint8_t>(get32());
 		}
-- 
2.43.0


From 9be9b1719c1f1f4461a41ec0315daab6b073acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 63/84] fix: NormalRandomGenerator used the seed as the lower
 limit of the uniform generator

---
 include/cybozu/nlp/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/random.hpp b/include/cybozu/nlp/random.hpp
index 93f397d..c2bd542 100644
--- a/include/cybozu/nlp/random.hpp
+++ b/include/cybozu/nlp/random.hpp
@@ -52,7 +52,7 @@ class NormalRandomGenerator {
 	double s_;
 public:
 	explicit NormalRandomGenerator(double u = 0, double s = 1, int seed = 0)
-		: gen_(seed)
+		: gen_(0, 1, seed)
 		, u_(u)
 		, s_(s)
 	{
-- 
2.43.0


From ad528b0c2e23dbf03d5b475b16fe38c11fdfa466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 64/84] fix: Union::ConstIterator::getMode returned nothing

---
 include/cybozu/nlp/sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..c2ce252 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -449,7 +449,7 @@ class Union {
 			if (isEnd) return;
 			detectMode();
 		}
-		Mode getMode() const { mode_; }
+		Mode getMode() const { return mode_; }
 		size_t pos() const { return pos_; }
 		bool hasVal1() const { return mode_ == Only1 || mode_ == Small || mode_ == Equal; }
 		bool hasVal2() const { return mode_ == Only2 || mode_ == Equal || mode_ == Large; }
-- 
2.43.0


From 252ab9f85a666dafc1e481c083863ddb068fac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 65/84] fix: reading a const SparseVector with
 CompressedPositionTbl modified it

begin() const appended the dummy data, so concurrent readers raced.
---
 include/cybozu/nlp/sparse.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index c2ce252..c2c7bc4 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -72,9 +72,8 @@ public:
 */
 
 class CompressedPositionTbl {
-	mutable std::vector<unsigned char> v_;
+	std::vector<unsigned char> v_; // has last dummy data unless empty to get speed and avoid buffer overrun
 	size_t lastPos_;
-	mutable bool addDummy_; // add last dummy data into v_ to get speed and avoid buffer overrun
 	friend struct Curr;
 public:
 	struct Curr {
@@ -86,11 +85,7 @@ public:
 			, val_(0)
 			, pos_(0)
 		{
-			if (!tbl.addDummy_) {
-				tbl.v_.push_back(0);
-				tbl.addDummy_ = true;
-			}
-			tbl.setup(*this);
+			if (!tbl.v_.empty()) tbl.setup(*this);
 		}
 		Curr(size_t vecPos)
 			: vecPos_(vecPos)
@@ -99,14 +94,12 @@ public:
 	};
 	CompressedPositionTbl()
 		: lastPos_(0)
-		, addDummy_(false)
 	{
 	}
 	void clear()
 	{
 		v_.clear();
 		lastPos_ = 0;
-		addDummy_ = false;
 	}
 	void reserve(size_t size)
 	{
@@ -114,10 +107,6 @@ public:
 	}
 	void set(size_t pos)
 	{
-		if (addDummy_) {
-			v_.resize(v_.size() - 1);
-			addDummy_ = false;
-		}
 		if (!v_.empty() && pos <= lastPos_) {
 			throw cybozu::Exception("SparseException:CompressedPositionTbl:set:bad order pos") << pos;
 		}
@@ -126,6 +115,7 @@ public:
 		}
 		unsigned int diff = (unsigned int)(pos - lastPos_);
 		lastPos_ = pos;
+		if (!v_.empty()) v_.pop_back(); // remove dummy
 		if (diff < (1 << 6)) {
 			v_.push_back((unsigned char)(diff));
 		} else if (diff < (1 << 14)) {
@@ -142,6 +132,7 @@ public:
 			v_.push_back((unsigned char)(diff >> 14));
 			v_.push_back((unsigned char)(diff >> 22));
 		}
+		v_.push_back(0); // dummy
 	}
 	void next(Curr& curr) const
 	{
@@ -153,7 +144,6 @@ public:
 	{
 		v_.swap(rhs.v_);
 		std::swap(lastPos_, rhs.lastPos_);
-		std::swap(addDummy_, rhs.addDummy_);
 	}
 private:
 	void setup(Curr& curr) const
-- 
2.43.0


From f528691b64bebfa6119d8cf416ccdce6d70cddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 66/84] fix: TopScore::add wrote out of its table

after setSize() or getTable(), and if the maximum size is 0 or 1.
---
 include/cybozu/nlp/top_score.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..5a2965b 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -5,6 +5,7 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 #include <vector>
+#include <algorithm>
 
 namespace cybozu { namespace nlp {
 
@@ -40,6 +41,9 @@ public:
 	}
 	void add(Double score, T idx)
 	{
+		if (maxSize_ == 0) return;
+		// setSize() and getTable() shrink tbl_
+		if (tbl_.size() < maxSize_) tbl_.resize(maxSize_);
 		// short cut
 		if (size_ == maxSize_ && score <= tbl_[size_ - 1].score) {
 			return;
@@ -48,7 +52,7 @@ public:
 		if (size_ > 0) {
 			for (size_t i = 0; i < size_; i++) {
 				if (score > tbl_[i].score) {
-					int end = (int)std::min(maxSize_ - 2, size_ - 1);
+					int end = (int)std::min(maxSize_ - 1, size_) - 1;
 					for (int j = end; j >= (int)i; j--) {
 						tbl_[j + 1] = tbl_[j];
 					}
-- 
2.43.0


From ebe0279071983d718be48229b134ea297a4294ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 67/84] fix: Logger::openFile leaked the new file if the old
 one can't be closed

---
 include/cybozu/log.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/log.hpp b/include/cybozu/log.hpp
index 21a16fe..593e090 100644
--- a/include/cybozu/log.hpp
+++ b/include/cybozu/log.hpp
@@ -94,7 +94,10 @@ public:
 		fp = fopen(path.c_str(), "a+b");
 #endif
 		if (fp == 0) throw cybozu::Exception("cybozu:Logger:openFile") << path;
-		if (!closeFile()) throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		if (!closeFile()) {
+			fclose(fp);
+			throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		}
 		fp_ = fp;
 		doClose_ = true;
 		useSyslog_ = false;
-- 
2.43.0


From 63b1dc540754c3de6d4230cac994b926ca4c9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 68/84] fix: Df counted a word twice in a document if it
 appears in upper and lower case

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index be31cfc..0716ae8 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -74,7 +74,7 @@ struct Df {
 			id2word_.push_back(lower);
 			df_.resize(id2word_.size());
 		}
-		if (set_.insert(word).second) {
+		if (set_.insert(lower).second) {
 			df_[ret.first->second]++;
 		}
 	}
-- 
2.43.0


From d2ef1fb168a06d57ec4a368720376a67e3504199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:43 +0000
Subject: [PATCH 69/84] fix: TfIdf::term made the vectors of as many documents
 as there are words

which read out of tf_ if there are fewer documents.
---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 0716ae8..256b45b 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -187,7 +187,7 @@ struct TfIdf {
 		for (size_t i = 0, n = df_.size(); i < n; i++) {
 			idf_[i] = logN - log(double(df_[i]));
 		}
-		for (size_t i = 0, n = df_.size(); i < n; i++) {
+		for (size_t i = 0, n = tf_.size(); i < n; i++) {
 			const Int2Int& iv = tf_[i];
 			DoubleSvec v;
 			for (Int2Int::const_iterator j = iv.begin(), je = iv.end(); j != je; ++j) {
-- 
2.43.0


From 292af7eb0bf97b49bc82c77068efc1a944dec963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:18 +0000
Subject: [PATCH 70/84] fix: ssl::ClientSocket::read never returned if the peer
 closed the connection

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..45adb88 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -156,6 +156,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:can't read") << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From bbce7a2e6e0460923dacf781379982ff625bfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:18 +0000
Subject: [PATCH 71/84] fix: ssl::ClientSocket::close threw if the peer has not
 closed the connection yet

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 45adb88..977f5b1 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -181,7 +181,7 @@ public:
 	{
 		bool isOK = true;
 		if (soc_.isValid()) {
-			isOK = SSL_shutdown(ssl_) == 1;
+			isOK = SSL_shutdown(ssl_) >= 0; // 0 if close_notify is not received yet
 			if (!isOK) {
 				Engine::getInstance().putError();
 			}
-- 
2.43.0


From 6a1ef01894acfdb3fa1e7f7dd6dfcb940aa2cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:43 +0000
Subject: [PATCH 72/84] fix: quit_signal_handler.hpp did not compile without
 another cybozu header before it

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From 360c6eb10112d3eb68fd5e96865f24b78942fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:43 +0000
Subject: [PATCH 73/84] fix: nlp/tfidf.hpp did not compile without math.h
 before it

---
 include/cybozu/nlp/tfidf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 256b45b..10b0e68 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -9,6 +9,9 @@
 #include <map>
 #include <string>
 #include <stdio.h>
+#include <math.h>
+#include <algorithm>
+#include <fstream>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/nlp/sparse.hpp>
 
-- 
2.43.0


From af187f7e92b89896a41940e488e4584855186e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:34 +0000
Subject: [PATCH 74/84] fix: a program using ssl.hpp crashed at exit with
 OpenSSL 1.1 or later

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 977f5b1..b4c52a3 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -40,8 +40,10 @@ struct Engine {
 		ENGINE_cleanup();
 		ERR_free_strings();
 //		CONF_modules_unload(1); // openssl/conf.h
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
 		/* this decreases one leak, but is this correct? */
 		OPENSSL_free(SSL_COMP_get_compression_methods());
+#endif
 	}
 	static Engine& getInstance()
 	{
-- 
2.43.0


From c61e165c4ebbd6fd8807fd3c93be96f12602cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 75/84] fix: regex(const String&) cut the pattern at the first
 NUL character

---
 include/cybozu/regex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/regex.hpp b/include/cybozu/regex.hpp
index fec9ff4..2bf634e 100644
--- a/include/cybozu/regex.hpp
+++ b/include/cybozu/regex.hpp
@@ -321,7 +321,7 @@ public:
 	explicit regex(const Char16* p, flag_type f = regex_constants::ECMAScript)
 		: Base(String(p).c_str(), f) {}
 	explicit regex(const String& p, flag_type f = regex_constants::ECMAScript)
-		: Base(p.c_str(), f) {}
+		: Base(p.c_str(), p.c_str() + p.size(), f) {}
 	regex(const Char* p1, const Char* p2, flag_type f = regex_constants::ECMAScript)
 		: Base(p1, p2, f) {}
 	regex(const Char* p, size_type len, flag_type f)
-- 
2.43.0


From b59634ea19840068dcf54d3573b8ff6c4be674d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 76/84] fix: GetFileList reported an incomplete list as success
 when readdir failed

---
 include/cybozu/file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 748b24e..ee0d48c 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -624,8 +624,9 @@ inline bool GetFileList(FileList &list, const std::string& dir, const std::strin
 	Handle hdl(::opendir(dir.c_str()));
 	if (!hdl.isValid()) return false;
 	for (;;) {
+		errno = 0;
 		struct dirent *dp = ::readdir(hdl.dir_);
-		if (dp == 0) return true;
+		if (dp == 0) return errno == 0;
 		FileInfo fi(dp->d_name, (uint8_t)dp->d_type);
 		file_local::filterAndPush(list, fi, extension, cond);
 	}
-- 
2.43.0


From 35a4c3c121f0e22be857dc51ef35128b1f77997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 77/84] fix: DoesFileExist("/") was false

---
 include/cybozu/file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index ee0d48c..9c2b159 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -482,7 +482,7 @@ inline bool DoesFileExist(const std::string& path)
 	if (path.empty()) return false;
 	std::string p = path;
 	char c = p[p.size() - 1];
-	if (c == '/' || c == '\\') {
+	if (p.size() > 1 && (c == '/' || c == '\\')) {
 		p.resize(p.size() - 1);
 	}
 #ifdef _WIN32
-- 
2.43.0


From e908ae9ab5ad24979493dce692d2c19c9c704534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 78/84] fix: svd loaders silently dropped the rest of a
 malformed sparse line

---
 include/cybozu/nlp/svd.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 6a2f3a0..7136dee 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -291,9 +291,10 @@ bool LoadMatrix(Matrix& M, const std::string& input)
 				int idx;
 				char sep;
 				double v;
+				is >> std::ws;
+				if (is.eof()) break;
 				is >> idx >> sep >> v;
-				if (!is) break;
-				if (sep != ':' || idx < 0 || idx >= col) {
+				if (!is || sep != ':' || idx < 0 || idx >= col) {
 					fprintf(stderr, "can't read %s\n", line.c_str());
 					return false;
 				}
@@ -343,9 +344,10 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 			int idx;
 			char sep;
 			double v;
+			is >> std::ws;
+			if (is.eof()) break;
 			is >> idx >> sep >> v;
-			if (!is) break;
-			if (sep != ':' || idx < 0 || idx >= col) {
+			if (!is || sep != ':' || idx < 0 || idx >= col) {
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
-- 
2.43.0


From e6fe8b3ef7ac421980aee35c8822ecc56d225cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 79/84] fix: LoadSparseMatrix aborted or built a broken matrix
 for columns out of order

---
 include/cybozu/nlp/svd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/svd.hpp b/include/cybozu/nlp/svd.hpp
index 7136dee..956f22c 100644
--- a/include/cybozu/nlp/svd.hpp
+++ b/include/cybozu/nlp/svd.hpp
@@ -340,6 +340,7 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 		}
 		std::istringstream is(line);
 		M.startVec(i);
+		int last = -1;
 		for (;;) {
 			int idx;
 			char sep;
@@ -347,10 +348,11 @@ bool LoadSparseMatrix(Matrix& M, const std::string& input)
 			is >> std::ws;
 			if (is.eof()) break;
 			is >> idx >> sep >> v;
-			if (!is || sep != ':' || idx < 0 || idx >= col) {
+			if (!is || sep != ':' || idx <= last || idx >= col) {
 				fprintf(stderr, "can't read %s\n", line.c_str());
 				return false;
 			}
+			last = idx;
 			M.insertBack(i, idx) = typename Matrix::Scalar(v);
 		}
 	}
-- 
2.43.0


From 6e4849099fc00d8d8414506c514652a52df1b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 80/84] fix: V128::shrBit and shlBit did not compile

---
 include/cybozu/v128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/v128.hpp b/include/cybozu/v128.hpp
index d3d129e..67d1bf6 100644
--- a/include/cybozu/v128.hpp
+++ b/include/cybozu/v128.hpp
@@ -318,7 +318,7 @@ template<int n>
 inline void V128::shrBit()
 {
 	assert(n < 64);
-	*this = psrlq<n>(*this) | psllq<64 - n>(psrldq<8>(*this));
+	*this = por(psrlq<n>(*this), psllq<64 - n>(psrldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = psrldq<8>(*this);
@@ -332,7 +332,7 @@ template<int n>
 inline void V128::shlBit()
 {
 	assert(n < 64);
-	*this = psllq<n>(*this) | psrlq<64 - n>(pslldq<8>(*this));
+	*this = por(psllq<n>(*this), psrlq<64 - n>(pslldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = pslldq<8>(*this);
-- 
2.43.0


From 6a79e4c89dfbc861edf6b9b100bb25e19490a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 81/84] fix: a second Plsi::startLearning kept the old topics
 and indexed out of range

---
 include/cybozu/nlp/plsi.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index a03b0be..defd9ba 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -220,8 +220,9 @@ public:
 	{
 		size_t M = users_.size();
 		size_t N = items_.size();
-		user_z_.resize(K);
-		item_z_.resize(K);
+		z_.clear();
+		user_z_.assign(K, DoubleVec());
+		item_z_.assign(K, DoubleVec());
 		cybozu::nlp::UniformRandomGenerator rand(0.25, 0.75);
 		for (int k = 0; k < K; k++) {
 			// initialize p(z=k)
-- 
2.43.0


From 95f341c523040599899eb98ac75eee5df84a9a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 82/84] fix: a Plsi query for an unknown user or item read out
 of range

---
 include/cybozu/nlp/plsi.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/nlp/plsi.hpp b/include/cybozu/nlp/plsi.hpp
index defd9ba..9d1360d 100644
--- a/include/cybozu/nlp/plsi.hpp
+++ b/include/cybozu/nlp/plsi.hpp
@@ -104,6 +104,7 @@ public:
 	*/
 	cybozu::nlp::TopScore<size_t>::Table search_items(USER_TYPE user, int top = 10) {
 		int K = (int)z_.size();
+		if (!hasKey(users_, user)) return cybozu::nlp::TopScore<size_t>::Table();
 		size_t user_id = get_user_id(user);
 
 		double p_x = 0; // p(x) = sum p(z)p(x|z)
@@ -130,6 +131,7 @@ public:
 	*/
 	cybozu::nlp::TopScore<size_t>::Table similar_items(ITEM_TYPE item, SEARCH_TYPE search_type, int top=10) {
 		int K = (int)z_.size();
+		if (!hasKey(items_, item)) return cybozu::nlp::TopScore<size_t>::Table();
 		size_t target_item_id = get_item_id(item);
 
 		cybozu::nlp::TopScore<size_t> ranking(top);
-- 
2.43.0


From 7ce2ce956dc6cc57dfbaa79c35c41cd170cacc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:38 +0000
Subject: [PATCH 83/84] fix: process::Start with closed stdio lost exec
 failures and closed the child's stdio

---
 include/cybozu/process.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 33ae2b5..7bb25a8 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -54,6 +54,14 @@ public:
 		if (::pipe (fd_) < 0) {
 			return false;
 		}
+		// the pipe must not be one of stdin, stdout and stderr, which the child replaces
+		for (int i = 0; i < 2; i++) {
+			if (fd_[i] > 2) continue;
+			const int fd = ::fcntl (fd_[i], F_DUPFD, 3);
+			if (fd < 0) return false;
+			::close(fd_[i]);
+			fd_[i] = fd;
+		}
 		if (::fcntl (fd_[Write], F_SETFD, FD_CLOEXEC) < 0) {
 			return false;
 		}
@@ -90,6 +98,7 @@ bool toDevNull(int fd, int flags)
 	int newFd = open("/dev/null", flags);
 
 	if (newFd < 0) return false;
+	if (newFd == fd) return true;
 
 	int ret = dup2(newFd, fd);
 	close(newFd);
-- 
2.43.0


From ce515d8fb828bdc00dcc22fdc212af3b03733d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 84/84] fix: String::append and assign of an iterator range
 into the string itself read freed or cleared characters

---
 include/cybozu/string.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 32fe48d..d9084af 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -561,11 +561,13 @@ public:
 	template<class Iterator>
 	StringT& append(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
+		BasicString buf; // [begin, end) may refer to this
 		while (begin != end) {
 			CharT c;
 			c = getOneChar(begin, end);
-			str_.push_back(c);
+			buf.push_back(c);
 		}
+		str_.append(buf);
 		return *this;
 	}
 
@@ -677,7 +679,9 @@ public:
 	template<class Iterator>
 	StringT& assign(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
-		clear(); return append(begin, end);
+		StringT str(begin, end); // [begin, end) may refer to this
+		swap(str);
+		return *this;
 	}
 
 	// assign [First, end), const pointers
-- 
2.43.0

