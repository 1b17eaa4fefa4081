From 83c46d0edf5874d5b9bf5832521ca45dc43c3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 01/27] fix: keep the server's client executables and PID file
 when a single client connection fails

---
 src/Main.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..11ef46b 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,6 +652,11 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
+
+						// The client executables and PID file belong to the server, so never remove them if the client connection terminates abnormally
+						keepClientExecutables = true;
+						pidFile = -1;
+
 						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
 						std::exit(0);
 					}
-- 
2.43.0


From 59fc691138ecdc2e89ad9125bafa8332ec57f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 02/27] fix: shut down the server on request even while client
 connections are active

---
 src/Main.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 11ef46b..9ae29c6 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -653,6 +653,10 @@ static void mainServer(int argc, const char *argv[])
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
 
+						// The server is only notified of an exit request once every copy of the input handle is closed
+						exitRequested.closeInput();
+						exitRequested.closeOutput();
+
 						// The client executables and PID file belong to the server, so never remove them if the client connection terminates abnormally
 						keepClientExecutables = true;
 						pidFile = -1;
-- 
2.43.0


From d1bc2bb72cc27f0d14c043624427d3b34240f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 03/27] fix: consume stdin data received after the process has
 closed stdin

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From 6de241552baa0a80ef68293ee071cee1f85caec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 04/27] fix: deliver the exit code to clients that still have
 unread stdin data

---
 src/Process.cxx | 10 ++++++++++
 src/Socket.cxx  | 10 ++++++++++
 src/Socket.hxx  |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..e81b229 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -994,6 +994,16 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			LOG_DEBUG << "Sending exit code (" << exitCode << ") to client";
 			socket.write({ std::uint8_t(EXIT_CODE), std::uint8_t(exitCode), std::uint8_t(exitCode >> 8), std::uint8_t(exitCode >> 16), std::uint8_t(exitCode >> 24) });
 		}
+
+		// Closing a socket with unread data resets the connection, which discards any data (including the exit code) that has not been received by the client, so wait for the client to close the connection first
+		{
+			std::vector<std::uint8_t> ignoredData(DATA_BUFFER_SIZE);
+
+			socket.closeWrite();
+
+			while (socket.read(ignoredData))
+				; // Continue until the client closes the connection
+		}
 #endif
 
 terminateServer:
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..d369e2b 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -229,6 +229,16 @@ void k8psh::Socket::close()
 	}
 }
 
+// Closes the sending side of the socket, allowing any remaining data to be received.
+void k8psh::Socket::closeWrite()
+{
+#ifdef _WIN32
+	(void)shutdown(_handle, SD_SEND);
+#else
+	(void)shutdown(_handle, SHUT_WR);
+#endif
+}
+
 // Gets the bound port of the socket, or zero if the socket is not valid.
 unsigned short k8psh::Socket::getPort() const
 {
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..bdf1e5b 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -86,6 +86,9 @@ public:
 	// Closes the socket.
 	void close();
 
+	// Closes the sending side of the socket, allowing any remaining data to be received.
+	void closeWrite();
+
 	// Creates a read event, if it does not already exist, that can be used to poll the socket for new data.
 	// (On Windows the socket will automatically be placed in non-blocking mode, and the event is subject to spurious wake-ups since it is reset after a wait rather than after a read.)
 	Event createReadEvent();
-- 
2.43.0


From 591275f160ab6935d2633bf14353dd994b35afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 05/27] fix: forward process output to the client's stdout and
 stderr as it is received

---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index e81b229..f2e5798 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From e8ecdd35b884c16a301703735f64558cb9c7c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 06/27] fix: terminate the process when the connection to the
 client is reset

---
 src/Process.cxx | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index f2e5798..8489275 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -28,6 +28,7 @@
 	// Due to using events to poll for socket input on Windows (which are susceptible to race conditions), the socket must be checked for new data on the first pass
 	#define K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK false
 #else
+	#include <csignal>
 	#include <cstdlib>
 
 	#include <poll.h>
@@ -455,6 +456,24 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 #ifdef _WIN32
 static std::mutex workingDirectoryMutex;
+#else
+// Terminates a process on destruction, unless the process has already exited
+class ProcessTerminator
+{
+	const pid_t _process;
+	const bool &_hasExited;
+
+	// Disable copying process terminators
+	ProcessTerminator(const ProcessTerminator&);
+
+public:
+	ProcessTerminator(pid_t process, const bool &hasExited) : _process(process), _hasExited(hasExited) { }
+	~ProcessTerminator()
+	{
+		if (!_hasExited)
+			(void)kill(_process, SIGTERM);
+	}
+};
 #endif
 
 /** Runs the process requested by the remote socket channel.
@@ -769,6 +788,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		std::string stdInData;
 		bool closeStdIn = false;
 		std::string pipeData(DATA_BUFFER_SIZE, '\0');
+#ifndef _WIN32
+		ProcessTerminator terminator(process, processHasExited); // The process must not outlive the connection to the client, regardless of how the connection is lost
+#endif
 
 		if (!stdInPipe.setInputNonblocking())
 			LOG_ERROR << "Failed to set stdin to use non-blocking writes";
@@ -920,8 +942,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					default:
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
-#else
-						(void)kill(process, 15); // Send TERM
 #endif
 
 						if (!dataReceived)
@@ -985,6 +1005,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (pid < 0 && errno != EINTR)
 					LOG_ERROR << "Failed to get exit code of process: " << errno;
 			}
+
+			processHasExited = true;
 		}
 
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
-- 
2.43.0


From 323841f340b3a4d423dce76dac13d5e4bc62e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 07/27] fix: terminate the process on disconnect after it has
 closed its standard streams

---
 src/Process.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 8489275..b9d8bbe 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -820,7 +820,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		pollSet[3].events = POLLIN;
 #endif
 
-		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
+		// Keep monitoring the socket until the process exits, even if the process has closed all its pipes
+		while (!processHasExited || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
 		{
 			// Check for new data
 #ifdef _WIN32
@@ -842,12 +843,13 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 
 #ifndef _WIN32
 			int pollResult;
+			const int pollTimeoutMs = stdOutPipe.getOutput() == Pipe::INVALID_HANDLE && stdErrPipe.getOutput() == Pipe::INVALID_HANDLE ? 16 : 250; // Closing all output usually means the process is about to exit
 
 			pollSet[0].fd = stdInData.empty() ? Pipe::INVALID_HANDLE : stdInPipe.getInput(); // Only wait on the stdin pipe if there is data ready to be sent to it
 			pollSet[1].fd = stdOutPipe.getOutput();
 			pollSet[2].fd = stdErrPipe.getOutput();
 
-			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
+			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : pollTimeoutMs);
 			while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
 			if (pollResult < 0)
-- 
2.43.0


From 77a18d2ab9fdb75b6549f542bce1020a81015b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 08/27] fix: stop polling stdin in the client after the process
 has closed it

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index b9d8bbe..6418937 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -430,6 +430,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+					pollSet[0].fd = -1; // Polling a closed descriptor returns immediately
+#endif
 					}
 
 					break;
-- 
2.43.0


From 7b58c3348148e6a7d27dc992961a9c5b7063921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 09/27] fix: parse the letters of hexadecimal escape sequences

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From aff9a7b72dc89ba0c53ec230f7bd560e7d8e1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 10/27] fix: reject implicit ports that are out of range
 instead of wrapping to port 0

---
 src/Configuration.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..10a8657 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -237,7 +237,7 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 	// Parse server settings
 	std::shared_ptr<Host> currentHost;
-	unsigned short currentPort = DEFAULT_STARTING_PORT;
+	unsigned long currentPort = DEFAULT_STARTING_PORT;
 	std::vector<std::pair<std::string, std::string> > environmentVariables;
 
 	for (;;)
@@ -267,17 +267,15 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 						LOG_ERROR << "Invalid port number \"" << port << '"';
 				}
 
-				unsigned long portValue = std::stoul(port);
-
-				if (portValue >= 65536)
-					LOG_ERROR << "Port out of range: " << portValue;
-
-				currentPort = static_cast<unsigned short>(portValue);
+				currentPort = std::stoul(port);
 			}
 
+			if (currentPort >= 65536)
+				LOG_ERROR << "Port out of range: " << currentPort;
+
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = static_cast<unsigned short>(currentPort++);
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
-- 
2.43.0


From 785741eb4f43c121081ac503b898ccb3a79931da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 11/27] fix: separate directories that follow a leading ../ in
 normalized paths

---
 src/Utilities.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..6394991 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -627,7 +627,7 @@ std::string k8psh::Utilities::normalizePath(const std::string &path)
 		{
 			directories.push_back(newPath.length());
 
-			if (directories.size() > 1)
+			if (directories.size() > 1 || (!isAbsolute && !newPath.empty()))
 				newPath += PATH_SEPARATOR;
 
 			newPath += path.substr(start, i - start);
-- 
2.43.0


From 7df07b74e26fd0dc48a862dc80463598b93b75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 12/27] fix: remove the client executables and PID file of a
 daemon that uses relative paths

---
 src/Main.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 9ae29c6..988de8e 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -423,6 +423,18 @@ static void mainServer(int argc, const char *argv[])
 			deferredArgc = deferredArgs.size();
 	}
 
+	// A daemon changes its working directory, so relative paths must be resolved now for the files to be removed later
+	if (daemonize)
+	{
+		const std::string prefix = k8psh::Utilities::getWorkingDirectory() + '/';
+
+		if (!k8psh::Utilities::isAbsolutePath(directory))
+			directory = prefix + directory;
+
+		if (!pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
+			pidFilename = prefix + pidFilename;
+	}
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
-- 
2.43.0


From 3d3c1c220cad6775a2f5bf7664edb40014aa85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 13/27] fix: completely replace any existing file when
 installing

---
 src/Main.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 988de8e..2604eae 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,12 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					struct stat sourceStat, installStat;
+
+					if (fstat(source, &sourceStat) == 0 && stat(installFilename.c_str(), &installStat) == 0 && sourceStat.st_dev == installStat.st_dev && sourceStat.st_ino == installStat.st_ino)
+						std::exit(0); // Already installed
+
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
-- 
2.43.0


From c00254a27b2e2e9908e8e9ffed6a96d3ad4c736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 14/27] fix: do not overflow when very large timeouts are
 configured

---
 src/Main.cxx    | 5 ++++-
 src/Process.cxx | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 2604eae..470fed5 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -522,7 +522,10 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto endTime = std::chrono::steady_clock::time_point::max();
+
+			if (timeoutMs >= 0 && timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - std::chrono::steady_clock::now()).count())
+				endTime = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs);
 
 			// Daemonize, if desired
 			if (daemonize)
diff --git a/src/Process.cxx b/src/Process.cxx
index 6418937..cdbe079 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -275,7 +275,11 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto endTime = std::chrono::steady_clock::time_point::max();
+
+	if (configuration.getConnectTimeoutMs() >= 0 && configuration.getConnectTimeoutMs() < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - std::chrono::steady_clock::now()).count())
+		endTime = std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs());
+
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
 	// Connect to the server
-- 
2.43.0


From 25045808158d4b379a159498d09ee0a7968cd1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 15/27] fix: refuse new connections once the server has started
 to shut down

---
 src/Main.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 470fed5..20f6df9 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -702,6 +702,9 @@ static void mainServer(int argc, const char *argv[])
 			else
 				LOG_DEBUG << "Shutting down the server, handled " << connectionCount << " connection(s)";
 
+			// Refuse any new clients rather than leaving them waiting for a server that will never respond
+			listener.close();
+
 #ifdef _WIN32
 			if (waitOnClientConnections && connectionCount)
 			{
-- 
2.43.0


From 1c5f5f85362af16f36d83bd52bd394de03728b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 16/27] fix: do not lose a termination signal sent to a process
 that is just being started

---
 src/Process.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index cdbe079..dd4d0f0 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -705,8 +705,22 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			(void)CloseHandle(pi.hThread);
 		}
 #else
+		// Block signals until the process has the default handlers, otherwise a signal sent to a process that has not yet been replaced would be lost
+		sigset_t allSignals, oldSignals;
+
+		(void)sigfillset(&allSignals);
+		(void)sigprocmask(SIG_BLOCK, &allSignals, &oldSignals);
+
 		int process = fork();
 
+		if (process == 0)
+		{
+			signal(SIGTERM, SIG_DFL);
+			signal(SIGINT, SIG_DFL);
+		}
+
+		(void)sigprocmask(SIG_SETMASK, &oldSignals, NULL);
+
 		switch (process)
 		{
 		case 0:
-- 
2.43.0


From 9262eb77351080343778cc9b9fc05e63933d5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 17/27] fix: clean up when the server is asked to exit while it
 is still starting

---
 src/Main.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 20f6df9..2d69390 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -440,6 +440,13 @@ static void mainServer(int argc, const char *argv[])
 			pidFilename = prefix + pidFilename;
 	}
 
+#ifndef _WIN32
+	// Exit requests are only handled in the main loop, so that everything created from now on is also cleaned up
+	signal(SIGHUP, daemonize ? SIG_IGN : handleSignal);
+	signal(SIGTERM, handleSignal);
+	signal(SIGINT, handleSignal);
+#endif
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
@@ -563,7 +570,6 @@ static void mainServer(int argc, const char *argv[])
 				if (setsid() == -1)
 					std::exit(-1);
 
-				signal(SIGHUP, SIG_IGN);
 				signal(SIGCHLD, SIG_IGN);
 
 				(void)k8psh::Utilities::changeWorkingDirectory("/");
@@ -582,16 +588,12 @@ static void mainServer(int argc, const char *argv[])
 			}
 #ifndef _WIN32
 			else
-			{
-				signal(SIGHUP, handleSignal);
 				signal(SIGCHLD, SIG_IGN);
-			}
 #endif
 
+#ifdef _WIN32
 			signal(SIGTERM, handleSignal);
 			signal(SIGINT, handleSignal);
-
-#ifdef _WIN32
 			(void)SetConsoleCtrlHandler(handleCtrlC, TRUE);
 #endif
 
-- 
2.43.0


From b046bf2ff284f2243d17bd20e63320b9391011c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 18/27] fix: do not relativize an unknown working directory
 against the root directory

---
 src/Utilities.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index 6394991..aab2182 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -693,7 +693,8 @@ std::string k8psh::Utilities::relativizePath(const std::string &parent, const st
 			while (isPathSeparator(parent[j]) || (parent[j] == '.' && (j + 1 == parent.length() || isPathSeparator(parent[j + 1]))))
 				j++;
 
-			if (i < path.length() && !isPathSeparator(path[i]))
+			// An empty path (the working directory could not be determined) is not below any directory
+			if (i < path.length() ? !isPathSeparator(path[i]) : path.empty() && !parent.empty())
 				LOG_ERROR << "Cannot relativize unrelated paths \"" << parent << "\", \"" << path << "\"";
 
 			// Skip any '/' or '/./'
-- 
2.43.0


From c6cfdceb582d661f3ae3e419092963eb68e410b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 19/27] fix: do not let a continuous stream of data hold up
 everything else in a session

---
 src/Process.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index dd4d0f0..dfbb362 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -62,6 +62,7 @@ enum PayloadType {
 };
 
 static const std::size_t DATA_BUFFER_SIZE = 1024 * 64;
+static const std::size_t MAX_PAYLOADS_PER_PASS = 8; // A continuous stream of payloads must not keep other data from being processed
 
 #ifdef _WIN32
 class SynchronousData
@@ -415,7 +416,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 		else if ((pollSet[1].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 		{
-			for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+			for (std::size_t payloads = 0; payloads < MAX_PAYLOADS_PER_PASS && ((payloads == 0 && K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK) || receiveSocket.hasData()); payloads++)
 			{
 				PayloadType type;
 				std::uint32_t payloadValue;
@@ -936,7 +937,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			else if ((pollSet[3].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 			{
-				for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+				for (std::size_t payloads = 0; payloads < MAX_PAYLOADS_PER_PASS && ((payloads == 0 && K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK) || receiveSocket.hasData()); payloads++)
 				{
 					bool dataReceived = receiveSocket.read(type, payloadValue);
 
-- 
2.43.0


From 4f11c72a9f1b3d1f87e8c0bb03bf7b00e5600810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 20/27] fix: do not mistake a socket or pipe for a standard
 stream that was closed

---
 src/Main.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 2d69390..eba4b2f 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -226,6 +226,18 @@ static void mainClient(int argc, const char *argv[])
 #ifdef _WIN32
 static HANDLE exitRequested;
 #else
+// Opens any standard stream that was closed when this process was started, so that a pipe or a socket opened later is never mistaken for one. Writing to it fails, as it would on a closed stream.
+static bool openStandardStreams()
+{
+	int handle = open("/dev/null", O_RDONLY);
+
+	while (handle >= 0 && handle <= STDERR_FILENO)
+		handle = open("/dev/null", O_RDONLY);
+
+	return handle < 0 || close(handle) == 0;
+}
+
+static const bool standardStreamsOpened = openStandardStreams(); // Must be initialized before exitRequested
 static k8psh::Pipe exitRequested;
 #endif
 
-- 
2.43.0


From f240bc090ee4ceb1317e3c97db90deadc887f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 21/27] fix: do not mistake a connection of the client to
 itself for the server

---
 src/Socket.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Socket.cxx b/src/Socket.cxx
index d369e2b..05821db 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -167,6 +167,13 @@ k8psh::Socket k8psh::Socket::connect(unsigned short port, bool failOnError)
 		return INVALID_HANDLE;
 	}
 
+	// While nothing listens on a port, the system may choose that port for the connecting socket, which is then connected to itself
+	if (socket.getPort() == port)
+	{
+		LOG_DEBUG << "Connected to itself on port " << port << " on socket " << socket._handle;
+		return INVALID_HANDLE;
+	}
+
 	setSocketOptions(socket._handle);
 	LOG_DEBUG << "Connected to port " << port << " on socket " << socket._handle;
 	return socket;
-- 
2.43.0


From 4308227092ac253cbdc9994ef6d6274daa67b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 22/27] fix: do not let the client wait for the server to
 receive data while the server waits for the client

Since the client only handles a limited number of payloads per pass, a client
that is blocked sending stdin data while the server is blocked sending small
output payloads never received them, and both waited for each other forever.
---
 src/Process.cxx | 43 +++++++++++++++++++++++++++++++++----------
 src/Socket.cxx  | 17 ++++++++++++-----
 src/Socket.hxx  |  3 ++-
 3 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index dfbb362..3ca28a8 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -192,24 +192,43 @@ class BufferedSendSocket
 {
 	k8psh::Socket &_socket;
 	std::vector<std::uint8_t> _data;
+	std::size_t _start;
 	std::size_t _end;
 
 public:
-	BufferedSendSocket(k8psh::Socket &socket) : _socket(socket), _data(INITIAL_MTU_SIZE), _end() { }
+	BufferedSendSocket(k8psh::Socket &socket) : _socket(socket), _data(INITIAL_MTU_SIZE), _start(), _end() { }
 	~BufferedSendSocket() { flush(); }
 
+	// Discards any pending data
+	void discard() { _start = _end = 0; }
+
 	// Flushes any pending data to the socket
 	void flush()
 	{
-		if (_end)
+		if (hasPendingData())
 		{
-			if (_socket.write(_data, 0, _end) != _end)
+			if (_socket.write(_data, _start, _end) != _end - _start)
 				LOG_ERROR << "Failed to write data to socket";
 
-			_end = 0;
+			discard();
+		}
+	}
+
+	// Flushes as much of the pending data as the socket is able to take immediately
+	void flushAvailable()
+	{
+		if (hasPendingData())
+		{
+			_start += _socket.write(_data, _start, _end, false);
+
+			if (!hasPendingData())
+				discard();
 		}
 	}
 
+	// Checks if there is any data that has not been flushed to the socket
+	bool hasPendingData() const { return _start != _end; }
+
 	// Writes a payload to the socket
 	void write(PayloadType type, const std::string &string, std::size_t length, bool flush = true)
 	{
@@ -347,13 +366,11 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 	waitSet[1] = socket.createReadEvent();
 #else
+	int stdInHandle = STDIN_FILENO;
 	struct pollfd pollSet[2] = { };
 
-	pollSet[0].fd = STDIN_FILENO;
 	pollSet[0].events = POLLIN;
-
 	pollSet[1].fd = socket.createReadEvent();
-	pollSet[1].events = POLLIN;
 #endif
 
 	std::string stdInBuffer(DATA_BUFFER_SIZE - 1, '\0');
@@ -370,6 +387,11 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 #else
 		int pollResult;
 
+		// Never wait for the server to receive data, since it may be waiting for data to be received from it, but do not read more stdin data until the previous data has been sent
+		sendSocket.flushAvailable();
+		pollSet[0].fd = sendSocket.hasPendingData() ? -1 : stdInHandle;
+		pollSet[1].events = short(POLLIN | (sendSocket.hasPendingData() ? POLLOUT : 0));
+
 		do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : -1);
 		while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
@@ -400,10 +422,10 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 			if (received < 0)
 				LOG_ERROR << "Failed to read data from stdin: " << errno;
 			else if (received == 0)
-				pollSet[0].fd = -1; // No more data, so ignore it from now on
+				stdInHandle = -1; // No more data, so ignore it from now on
 
 			LOG_DEBUG << "Sending stdin data (" << received << " bytes) to server";
-			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received));
+			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received), false);
 #endif
 		}
 
@@ -436,7 +458,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
 #ifndef _WIN32
-					pollSet[0].fd = -1; // Polling a closed descriptor returns immediately
+					stdInHandle = -1; // Polling a closed descriptor returns immediately
 #endif
 					}
 
@@ -452,6 +474,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 				case EXIT_CODE:
 					LOG_DEBUG << "Received exit code (" << int(payloadValue) << ") from server";
+					sendSocket.discard(); // The process is no longer able to read any data
 					return int(payloadValue);
 
 				default:
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 05821db..cd41668 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -361,7 +361,7 @@ std::size_t k8psh::Socket::read(std::vector<std::uint8_t> &data, std::size_t off
  * @param end the ending index (exclusive) of the data to write
  * @return the number of bytes written to the socket
  */
-std::size_t k8psh::Socket::write(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end)
+std::size_t k8psh::Socket::write(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end, bool wait)
 {
 	LOG_DEBUG << "Writing bytes " << offset << " - " << end << " on socket " << _handle;
 	std::size_t totalSent = 0;
@@ -369,19 +369,23 @@ std::size_t k8psh::Socket::write(const std::vector<std::uint8_t> &data, std::siz
 	while (offset < end)
 	{
 #ifdef _WIN32
+		const int flags = 0;
 		int length = int(end - offset);
 #else
+		const int flags = wait ? 0 : MSG_DONTWAIT;
 		std::size_t length = end - offset;
 #endif
-		auto sent = send(_handle, reinterpret_cast<const char *>(data.data() + offset), length, 0);
+		auto sent = send(_handle, reinterpret_cast<const char *>(data.data() + offset), length, flags);
 
 		if (sent == -1)
-#ifdef _WIN32
 		{
 			int error = getSocketErrorCode();
 
+#ifdef _WIN32
 			if (error != WSAEWOULDBLOCK)
 				LOG_ERROR << "Failed to write data to socket: " << error;
+			else if (!wait)
+				break;
 
 			fd_set fdSet;
 
@@ -390,10 +394,13 @@ std::size_t k8psh::Socket::write(const std::vector<std::uint8_t> &data, std::siz
 
 			(void)select(0, NULL, &fdSet, NULL, NULL);
 			continue;
-		}
 #else
-			LOG_ERROR << "Failed to write data to socket: " << getSocketErrorCode();
+			if (wait || (error != EAGAIN && error != EWOULDBLOCK))
+				LOG_ERROR << "Failed to write data to socket: " << error;
+
+			break;
 #endif
+		}
 
 		totalSent += sent;
 		offset += sent;
diff --git a/src/Socket.hxx b/src/Socket.hxx
index bdf1e5b..f6f794f 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -124,9 +124,10 @@ public:
 	 * @param data a vector of data to write to the socket
 	 * @param offset the offset into the vector to write data from
 	 * @param end the ending index (exclusive) of the data to write
+	 * @param wait true to wait until all the data has been written, false to only write the data that can be written without waiting (on Windows, this is only supported if a read event has been created)
 	 * @return the number of bytes written to the socket
 	 */
-	std::size_t write(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end);
+	std::size_t write(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end, bool wait = true);
 };
 
 } // k8psh
-- 
2.43.0


From eaafa35e7a3f12a18b915c6e73e74d27936e6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 23/27] fix: do not let new clients keep the server from
 shutting down after its timeout

---
 src/Main.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index eba4b2f..7549e85 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -632,6 +632,11 @@ static void mainServer(int argc, const char *argv[])
 			{
 				auto remainingMs = std::chrono::duration_cast<std::chrono::milliseconds>(endTime -
 					(timeoutMs >= 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point::max())).count();
+
+				// New clients must not keep the server from timing out
+				if (timeoutMs >= 0 && remainingMs <= 0)
+					break;
+
 #ifdef _WIN32
 				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(INFINITE - 1));
 				DWORD waitResult = WaitForMultipleObjects(DWORD(sizeof(waitSet) / sizeof(waitSet[0]) - (listener.isValid() ? 0 : 1)), waitSet, FALSE, timeoutMs >= 0 ? DWORD(waitMs) : INFINITE);
-- 
2.43.0


From e21a0490c8359a324a0d612b717f88a351727989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 24/27] fix: write every log message at once, so that none is
 repeated by forked processes or lost by aborted ones

---
 src/Utilities.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index aab2182..3b4aa64 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -127,7 +127,8 @@ bool k8psh::Logger::shouldLogDebug(const char *filename)
 
 k8psh::Logger::~Logger()
 {
-	static auto atomicWrite = [](std::FILE *stream, const std::string &content) { return std::fwrite(&content[0], content.length(), 1, stream); };
+	// A message left in the buffer of the stream would be repeated by every process forked from this one, and lost if this process is aborted or replaced
+	static auto atomicWrite = [](std::FILE *stream, const std::string &content) { return std::fwrite(&content[0], content.length(), 1, stream) == 1 && std::fflush(stream) == 0; };
 
 	std::string message = _logger.str();
 	std::string level5Chars;
-- 
2.43.0


From 7ec7fe3150b7102811a035187cbd377fe6c1531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 25/27] fix: clean up and exit normally when the reader of the
 server's log is gone

---
 src/Main.cxx    | 4 ++++
 src/Process.cxx | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 7549e85..82fffcc 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -276,6 +276,10 @@ static const std::string defaultPidFilename = "/run/" + serverName + ".pid";
 // The main() for the server that waits requests to run executables in the configuration
 static void mainServer(int argc, const char *argv[])
 {
+#ifndef _WIN32
+	signal(SIGPIPE, SIG_IGN); // Losing the reader of the log must not end the server before it has cleaned up
+#endif
+
 	k8psh::Socket::Initializer socketInit;
 	std::vector<std::string> deferredArgs;
 	bool daemonize = false;
diff --git a/src/Process.cxx b/src/Process.cxx
index 3ca28a8..ab04249 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -806,6 +806,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (!stdInPipe.remapOutput(STDIN_FILENO) || !stdOutPipe.remapInput(STDOUT_FILENO) || !stdErrPipe.remapInput(STDERR_FILENO))
 					LOG_ERROR << "Failed to map stdin, stdout, and stderr";
 
+				signal(SIGPIPE, SIG_DFL);
 				environ = const_cast<char **>(env.data());
 
 				// First, try the working directory (this provides compatibility across different platforms), then try the search path
-- 
2.43.0


From 7da0b1fe339c236fdcc75eba38295deb681c0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 26/27] fix: log handled signals outside of the signal handler,
 which may interrupt the logging of another message

---
 src/Main.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 82fffcc..525586a 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -252,10 +252,12 @@ template <typename T> static T clampPositive(T value, T max)
 	return value;
 }
 
-// Handles signals by requesting that the application exit.
+static volatile std::sig_atomic_t lastSignal = 0;
+
+// Handles signals by requesting that the application exit. This may interrupt anything, including the logging of a message, so nothing can be logged here.
 extern "C" void handleSignal(int signal)
 {
-	LOG_DEBUG << "Handling signal " << signal;
+	lastSignal = signal;
 #ifdef _WIN32
 	(void)SetEvent(exitRequested);
 #else
@@ -718,6 +720,9 @@ static void mainServer(int argc, const char *argv[])
 				}
 			}
 
+			if (lastSignal != 0)
+				LOG_DEBUG << "Handled signal " << lastSignal;
+
 			if (maxConnections >= 0 && connectionCount >= maxConnections)
 				LOG_INFO << "Shutting down the server after accepting the maximum number of connections (" << connectionCount << ")";
 			else if (timeoutMs >= 0)
-- 
2.43.0


From fca8ddbad25d848882428ad724147a3d27990c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 27/27] fix: do not let a failure to fork for one client end
 the server

---
 src/Main.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 525586a..76206a3 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -712,8 +712,9 @@ static void mainServer(int argc, const char *argv[])
 
 					(void)close(client.abandon());
 
+					// Only this client is affected, just like by an error while accepting it
 					if (child == -1)
-						LOG_ERROR << "Failed to fork client: " << errno;
+						LOG_WARNING << "Failed to fork client: " << errno;
 #endif
 
 					connectionCount++;
-- 
2.43.0

