From c2430f06ae2efd56de117ede2e6cbfd89822bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 01/51] fix: output files release their stream and descriptor
 on every path

---
 ecl_devices/src/lib/ofile_pos.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..7779fa5 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -19,6 +19,8 @@
 
 #include "../../include/ecl/devices/ofile_pos.hpp"
 #include "../../include/ecl/devices/detail/error_handler.hpp"
+#include <cerrno>
+#include <unistd.h>
 #include <iostream>
 #include <ecl/exceptions/macros.hpp>
 
@@ -63,6 +65,10 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	// release the file that is currently open before replacing it
+	if ( open() && !close() ) {
+		return false;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
@@ -88,6 +94,9 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         default : break;
     }
     if ( file == NULL ) {
+        int fdopen_errno = errno;
+        ::close(file_descriptor); // fdopen did not take it over
+        errno = fdopen_errno;
         ecl_throw(devices::open_exception(LOC,file_name));
         error_handler = devices::open_error();
         return false;
@@ -98,13 +107,15 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 
 bool OFile::close() {
 	if ( open() ) {
-		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
+		// This flushes and closes the file descriptor (whether it fails or
+		// not, the stream can no longer be used).
+		int result = fclose(file);
+		file = NULL;
+		if ( result != 0 ) {
 			ecl_throw(devices::close_exception(LOC,name));
 			error_handler = devices::close_error();
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
@@ -150,6 +161,11 @@ long OFile::write(const char* s, unsigned long n)
 }
 
 bool OFile::flush() {
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
+		error_handler = OpenError;
+		return false;
+	}
 	// This flushes userland buffers to the kernel buffers...not sure why,
 	// but you can still read the file in real time, so its good enough and
 	// thus better than a more expensive fsync here.
-- 
2.43.0


From 62dbd268737069c48cd011b3184b598363de11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:01 +0000
Subject: [PATCH 02/51] fix: time stamp differences carry full seconds of
 nanoseconds

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From e9bf2c9470e7d5cb00e3199be1c3c01f076f6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:01 +0000
Subject: [PATCH 03/51] fix: MicroSleep and NanoSleep set the seconds of the
 requested duration

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..d0910d4 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000; // integer division
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000; // integer division
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From cc4a20c31586ec0e2dc871fa76f8dceedbd87ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:01 +0000
Subject: [PATCH 04/51] fix: Snooze deadlines never reach a full second of
 nanoseconds

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From fc4d568d69dc7766ac15c6fbf2247eeee9a31584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 05/51] fix: serial ports release their descriptor on every
 failed open and report failed configuration

---
 .../include/ecl/devices/serial_pos.hpp        |  4 +-
 ecl_devices/src/lib/serial_pos.cpp            | 40 +++++++++++++------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..c231560 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
@@ -449,7 +449,7 @@ namespace ecl
       error_handler = OpenError;
       return -1;
     }
-    ssize_t no_read;
+    ssize_t no_read = 0;
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..3b1ffa4 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
@@ -91,6 +91,11 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                   const StopBits &stop_bits, const Parity &parity)
 {
 
+  if (open())
+  {
+    close();
+  }
+
   /*********************
    ** Input Checks
    **********************/
@@ -99,14 +104,9 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     ecl_throw(
         StandardException(LOC,ConfigurationError,"Standard serial device does not accept StopBits_15 as valid (used in ftdi)."));
     error_handler = InvalidArgError;
-    is_open = false;
     return false;
   }
 
-  if (open())
-  {
-    close();
-  }
   port = port_name;
   // One curious thing here is O_NONBLOCK. If you do not specify this, it will try
   // and wait till the line has an 'other' end. Which it can't possibly know, so
@@ -119,14 +119,15 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     is_open = false;
     return false;
   }
+  is_open = true; // from here on, close() has to release the descriptor
 
   static const int baud_rate_flags[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200,
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    close();
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
-    is_open = false;
     return false;
   }
   static const int data_bits_flags[] = {CS5, CS6, CS7, CS8};
@@ -141,7 +142,13 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   // Turn off the O_NONBLOCK we set back when opening (we want by default
   // blocking and timeouts etc to occur).
   // Using 0 as the argument here resets the file status flags to defaults.
-  fcntl(file_descriptor, F_SETFL, 0);
+  if (fcntl(file_descriptor, F_SETFL, 0) == -1)
+  {
+    close();
+    ecl_throw(StandardException(LOC,OpenError,"Could not reset the file status flags of the device."));
+    error_handler = OpenError;
+    return false;
+  }
   // this came from ros' hokoyu node code for setting a lock on the device file descriptor
   // useful if you want to make sure other devices dont mess with your device!
   struct flock file_lock;
@@ -152,10 +159,12 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    int lock_errno = errno;
+    close();
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(lock_errno))));
+    (void) lock_errno;
     error_handler = IsLockedError;
-    is_open = false;
     return false;
   }
 
@@ -172,9 +181,9 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    close();
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
-    is_open = false;
     return false;
   }
 
@@ -259,7 +268,13 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    * TCSADRAIN - wait till everything is transmitted, don't do anything with unread data.
    * TCSAFLUSH - wait till everything is transmitted, also clear unread data.
    *******************************************/
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  if (tcsetattr(file_descriptor, TCSAFLUSH, &options) != 0)
+  {
+    close();
+    ecl_throw(StandardException(LOC,ConfigurationError,"Configuring the serial device failed (is it a serial device?)."));
+    error_handler = ConfigurationError;
+    return false;
+  }
 
   /******************************************
   ** Reset Status
@@ -271,7 +286,6 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   clear();
 
-  is_open = true;
   error_handler = NoError;
   return true;
 }
-- 
2.43.0


From 8df4ba6ff784b3b00ad8201f7ec994ff89bafe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:59 +0000
Subject: [PATCH 06/51] fix: socket and file error codes agree with the
 exceptions for the same errno

---
 .../ecl/devices/detail/socket_error_handler_pos.hpp  | 12 +++++++-----
 ecl_devices/src/lib/detail/error_handler.cpp         |  1 +
 .../src/lib/detail/socket_exception_handler_pos.cpp  |  6 +++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..3ebe331 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EAGAIN      ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -175,7 +174,8 @@ inline ecl::Error send_error() {
  */
 inline ecl::Error gethostbyname_error() {
   switch( h_errno ) {
-          case ( HOST_NOT_FOUND ) : return ecl::Error(ecl::ConnectionError);
+          case ( HOST_NOT_FOUND ) : return ecl::Error(ecl::OpenError);
+          case ( TRY_AGAIN )   : return ecl::Error(ecl::OpenError);
           case ( NO_ADDRESS )  : return ecl::Error(ecl::InvalidArgError);
           case ( NO_RECOVERY ) : return ecl::Error(ecl::UnknownError);
           default              : return ecl::Error(ecl::UnknownError);
@@ -188,7 +188,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES )      :
+      case ( EPERM )       : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
@@ -199,7 +200,8 @@ inline ecl::Error connection_error() {
       case ( EINPROGRESS ) : return ecl::Error(ecl::BlockingError);
       case ( EINTR )       : return ecl::Error(ecl::InterruptedError);
       case ( EISCONN )     : return ecl::Error(ecl::ConnectionError);
-      case ( ENETUNREACH ) : return ecl::Error(ecl::ConfigurationError);
+      case ( ENETUNREACH ) :
+      case ( EHOSTUNREACH ): return ecl::Error(ecl::NotFoundError);
       case ( ENOTSOCK )    : return ecl::Error(ecl::InvalidObjectError);
       case ( ETIMEDOUT )   : return ecl::Error(ecl::TimeOutError);
               default              : return ecl::Error(ecl::UnknownError);
diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..4ba94e3 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EAGAIN      ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES )      :
+        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From 81a65d27b32085c0b151abd0048ca9d865ee785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 07/51] fix: sockets release each descriptor once, report
 failures and never use unopened descriptors

---
 .../include/ecl/devices/socket_client_pos.hpp |  2 +-
 .../include/ecl/devices/socket_server_pos.hpp | 18 ++++++++--
 ecl_devices/src/lib/socket_client_pos.cpp     | 24 +++++++++----
 ecl_devices/src/lib/socket_server_pos.cpp     | 36 +++++++++++++++----
 4 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..b218e66 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : port(0), socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..8f360fc 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : port(0), socket_fd(-1), client_socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,14 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close() {
+		disconnect();
+		if ( is_open ) {
+			is_open = false;
+			::close(socket_fd);
+			socket_fd = -1;
+		}
+	}
 
 	bool open() const { return is_open; }
 
@@ -213,6 +220,13 @@ public:
 	const Error& error() const { return error_handler; }
 
 private:
+    void disconnect() {
+        if ( client_socket_fd >= 0 ) {
+            ::close(client_socket_fd);
+            client_socket_fd = -1;
+        }
+    }
+
     int port;
     int socket_fd;
     int client_socket_fd;
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..a4d97b9 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -57,8 +58,11 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 }
 
 void SocketClient::close() {
-	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	if ( is_open ) {
+		is_open = false;
+		::close(socket_fd); // should have error handling here
+		socket_fd = -1;
+	}
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
@@ -117,8 +121,10 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
 	**********************/
     int connect_result = connect( socket_fd, (struct sockaddr *) &destination, sizeof(destination) );
     if ( connect_result == -1 ) {
+    	int connect_errno = errno;
     	is_open = false;
     	::close(socket_fd);
+    	errno = connect_errno; // closing must not hide why the connection failed
     	ecl_throw(devices::connection_exception(LOC));
     	error_handler = devices::connection_error();
     	return false;
@@ -139,6 +145,7 @@ long SocketClient::read(char &c) {
 long SocketClient::read(char *s, const unsigned long &n) {
 
     if ( !open() ) {
+    	error_handler = ConnectionError;
     	return ConnectionDisconnected;
     }
 
@@ -157,11 +164,13 @@ long SocketClient::read(char *s, const unsigned long &n) {
     if ( bytes_read == 0 ) {
         // Server has dropped
         close();
+        error_handler = ConnectionError;
         return ConnectionHungUp;
     }
     if ( bytes_read < 0 ) {
     	if ( errno == ECONNRESET ) {
     		close();
+    		error_handler = ConnectionError;
     		return ConnectionHungUp;
     	} else {
 			ecl_debug_throw( devices::receive_exception(LOC) );
@@ -175,7 +184,7 @@ long SocketClient::read(char *s, const unsigned long &n) {
 
 long SocketClient::peek(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() ) { error_handler = ConnectionError; return ConnectionDisconnected; }
 
 	int bytes_read = ::recv(socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
@@ -189,13 +198,14 @@ long SocketClient::peek(char *s, const unsigned long &n) {
 
 long SocketClient::remaining() {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() ) { error_handler = ConnectionError; return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes = 0;
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
@@ -212,7 +222,7 @@ long SocketClient::write(const char &c) {
 
 long SocketClient::write(const char *s, unsigned long n) {
 
-	if ( !open() ) { return ConnectionDisconnected; }
+	if ( !open() ) { error_handler = ConnectionError; return ConnectionDisconnected; }
 
     /*********************
      * Write
@@ -223,6 +233,7 @@ long SocketClient::write(const char *s, unsigned long n) {
         switch(errno) {
             case ( EPIPE ) : {
                 close();
+                error_handler = ConnectionError;
                 return ConnectionHungUp;
             }
             default : {
@@ -232,6 +243,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..db484fc 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -84,7 +86,10 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	int bind_errno = errno;
+    	::close(socket_fd);
+    	socket_fd = -1;
+    	errno = bind_errno; // closing must not hide why the binding failed
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
@@ -99,7 +104,15 @@ int SocketServer::listen() {
 	/*********************
 	** Params
 	**********************/
-	::listen(socket_fd,1); // Number of clients to allow
+	if ( !open() ) {
+		error_handler = ConnectionError;
+		return -1;
+	}
+	if ( ::listen(socket_fd,1) == -1 ) { // Number of clients to allow
+		ecl_throw(devices::bind_exception(LOC)); // listen sets a subset of the errors bind does
+		error_handler = devices::bind_error();
+		return -1;
+	}
 
 	/*********************
 	** Listen
@@ -107,12 +120,14 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
-    client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
-    if (client_socket_fd < 0) {
+    int new_client_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
+    if (new_client_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
     	error_handler =devices::accept_error();
     	return -1;
     }
+    disconnect(); // a new client replaces the previous one
+    client_socket_fd = new_client_fd;
     error_handler = NoError;
     return client_socket_fd;
 
@@ -124,7 +139,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( client_socket_fd < 0 ) { error_handler = ConnectionError; return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -136,6 +151,7 @@ long SocketServer::read(char *s, const unsigned long &n) {
     if ( bytes_read == 0 ) {
         // Server has dropped
         close();
+        error_handler = ConnectionError;
         return ConnectionHungUp;
     }
     error_handler = NoError;
@@ -144,6 +160,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( client_socket_fd < 0 ) { error_handler = ConnectionError; return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -155,7 +173,9 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+    if ( client_socket_fd < 0 ) { error_handler = ConnectionError; return ConnectionDisconnected; }
+
+    int bytes = 0;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
@@ -172,6 +192,9 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+
+    if ( client_socket_fd < 0 ) { error_handler = ConnectionError; return ConnectionDisconnected; }
+
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
@@ -181,6 +204,7 @@ long SocketServer::write(const char *s, unsigned long n) {
         switch(errno) {
             case ( EPIPE ) : {
                 close();
+                error_handler = ConnectionError;
                 return ConnectionHungUp;
             }
             default : {
-- 
2.43.0


From 4a2e14db0292ae1409b116c2aa3d4018ccae0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 08/51] fix: mutex counts, failed try-locks, timed-lock
 deadlines and attribute release

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp |  3 +-
 ecl_threads/src/lib/mutex_pos.cpp             | 67 ++++++++++++++-----
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..b6854d3 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -24,6 +24,7 @@
 *****************************************************************************/
 
 #include <errno.h>
+#include <atomic>
 #include <cstring> // strerror function
 #include <string>
 #include <pthread.h>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks; // touched by threads that do not hold the mutex
 
 };
 
diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..8ed462e 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -17,6 +17,8 @@
  *****************************************************************************/
 
 #include <errno.h>
+#include <time.h>
+#include <unistd.h> // _POSIX_TIMEOUTS
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/threads/mutex.hpp"
 
@@ -40,22 +42,30 @@ Mutex::Mutex(const bool locked) :
   result = pthread_mutexattr_init(&attr);
   ecl_assert_throw(result == 0, threads::throwMutexAttrException(LOC,result));
 
-  #if defined(NDEBUG) || defined(ECL_NDEBUG)
-    result = pthread_mutexattr_settype(&attr,PTHREAD_MUTEX_NORMAL);
-  #else
-    result = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
-  #endif
-  ecl_assert_throw(result == 0, threads::throwMutexAttrException(LOC,result));
-
   if (result == 0) {
-    result = pthread_mutex_init(&mutex, &attr);
+    #if defined(NDEBUG) || defined(ECL_NDEBUG)
+      int type_result = pthread_mutexattr_settype(&attr,PTHREAD_MUTEX_NORMAL);
+    #else
+      int type_result = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
+    #endif
+    if (type_result == 0) {
+      result = pthread_mutex_init(&mutex, &attr);
+    }
+    pthread_mutexattr_destroy(&attr); // before anything is thrown
+    ecl_assert_throw(type_result == 0, threads::throwMutexAttrException(LOC,type_result));
+    ecl_assert_throw(result == 0, threads::throwMutexInitException(LOC,result));
+    if (type_result != 0) {
+      result = type_result;
+    }
   }
-  ecl_assert_throw(result == 0, threads::throwMutexInitException(LOC,result));
-  result = pthread_mutexattr_destroy(&attr);
-  ecl_assert_throw(result == 0, threads::throwMutexAttrException(LOC,result));
 
-  if (locked) {
-    this->lock();
+  if (locked && (result == 0)) {
+    ecl_debug_try {
+      this->lock();
+    } ecl_debug_catch( const StandardException &e ) {
+      pthread_mutex_destroy(&mutex); // the destructor will not be run
+      ecl_debug_throw(StandardException(LOC,e));
+    }
   }
 }
 
@@ -68,8 +78,11 @@ Mutex::~Mutex()
 
 void Mutex::lock()
 {
-  ++number_locks;
+  ++number_locks; // counts the threads waiting as well
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    --number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -77,14 +90,28 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // the system expects a point in time, not a duration
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    if (clock_gettime(CLOCK_REALTIME, &timeout) != 0) {
+      return trylock();
+    }
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      timeout.tv_nsec -= 1000000000L;
+      timeout.tv_sec += 1;
+    } else if (timeout.tv_nsec < 0) { // negative durations
+      timeout.tv_nsec += 1000000000L;
+      timeout.tv_sec -= 1;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
     }
     ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,result));
+    if (result != 0) {
+      return false;
+    }
     ++number_locks;
   #else
     (void) duration;
@@ -103,6 +130,9 @@ bool Mutex::trylock()
   }
 
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
+  if (result != 0) {
+    return false;
+  }
 
   // If we made it here, it means the attempt locked the mutex.
   ++number_locks;
@@ -111,8 +141,11 @@ bool Mutex::trylock()
 
 void Mutex::unlock()
 {
-  --number_locks;
+  --number_locks; // once unlocked, another thread may destroy the mutex
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    ++number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From f75e4997d0ed4065c578cc4948791b431f54a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 09/51] fix: shared files release the registry lock, their
 buffer and their file on every path

---
 .../include/ecl/devices/shared_file.hpp       | 20 +++-
 ecl_devices/src/lib/shared_file.cpp           | 94 +++++++++++++------
 2 files changed, 81 insertions(+), 33 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..366fc2f 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(NULL), error_handler(NoError) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -175,7 +175,7 @@ public:
 	 *
 	 * @return unsigned int : the number of shared instances.
 	 */
-	unsigned int count() { return shared_instance->count; }
+	unsigned int count() { return ( shared_instance != NULL ) ? shared_instance->count : 0; }
 
 	/*********************
 	** OutputDevice Methods
@@ -185,7 +185,7 @@ public:
 	 *
 	 * @return bool : true if open, false otherwise.
 	 */
-	bool open() { return shared_instance->file.open(); }
+	bool open() { return ( shared_instance != NULL ) && shared_instance->file.open(); }
 	/**
 	 * @brief Write a character to the buffer.
 	 *
@@ -227,11 +227,21 @@ public:
 	 **/
 	bool flush();
 
-	const Error& error() const { return shared_instance->error_handler; }
+	const Error& error() const { return error_handler; }
 
 private:
+	/**
+	 * @brief Flushes the buffer and gives up the shared instance (if there is one).
+	 *
+	 * This never throws.
+	 *
+	 * @return bool : false if the data could not be flushed or the file not be released.
+	 */
+	bool close();
+
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
+	Error error_handler;
 };
 
 /*****************************************************************************
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..2cad4f6 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -85,13 +85,19 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
         /******************************************
         ** File does not exist - open it
         *******************************************/
+    	shared_instance = NULL;
     	ecl_try {
     		shared_instance = new SharedFileCommon(name,mode);
-    		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
-    		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
+    	if ( shared_instance->file.open() ) {
+    		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
+    	} else {
+    		delete shared_instance;
+    		shared_instance = NULL;
+    	}
     }
     mutex.unlock();
     return shared_instance;
@@ -107,6 +113,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
@@ -133,7 +140,8 @@ using std::string;
 *****************************************************************************/
 
 SharedFile::SharedFile(const std::string &name, WriteMode mode) :
-	shared_instance(NULL)
+	shared_instance(NULL),
+	error_handler(NoError)
 {
 	ecl_try {
 		open(name,mode);
@@ -143,38 +151,55 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 }
 
 SharedFile::~SharedFile() {
-	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
-	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
-	        } else {
-	            delete shared_instance;
-	        }
-	} ecl_catch( StandardException &e ) {
-		// Never throw from a destructor!
-		// use some other mechanism!!!
-		// throw StandardException(LOC,e);
-	}
+	close(); // never throws
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	// give up the file that is currently shared before replacing it
+	if ( !close() ) {
+		return false;
+	}
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
-		if ( shared_instance == NULL ) {
-                        shared_instance = new devices::SharedFileCommon();
-                        shared_instance->error_handler = OpenError;
-			return false;
-		} else {
-			shared_instance->error_handler = NoError;
-			return true;
-		}
 	} ecl_catch ( StandardException &e ) {
-	        shared_instance = new devices::SharedFileCommon();
-		shared_instance->error_handler = OpenError;
+		error_handler = OpenError;
 		ecl_throw(StandardException(LOC,e));
 	}
+	if ( shared_instance == NULL ) {
+		error_handler = OpenError;
+		return false;
+	}
+	error_handler = NoError;
+	return true;
+}
+
+bool SharedFile::close() {
+	bool result = true;
+	if ( shared_instance != NULL ) {
+		ecl_try {
+			result = flush();
+		} ecl_catch ( StandardException &e ) {
+			result = false;
+		}
+		buffer.clear();
+		std::string name = shared_instance->file.filename();
+		shared_instance = NULL;
+		ecl_try {
+			result = devices::SharedFileManager::DeRegisterSharedFile( name ) && result;
+		} ecl_catch ( StandardException &e ) {
+			result = false;
+		}
+		error_handler = result ? NoError : CloseError;
+	}
+	return result;
 }
 
 long SharedFile::write(const char &c) {
+	if ( !open() ) {
+		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		return -1;
+	}
 	long n = buffer.append(c);
 	if ( buffer.full() ) {
 		if ( !flush() ) {
@@ -185,7 +210,12 @@ long SharedFile::write(const char &c) {
 }
 
 long SharedFile::write(const char* s, unsigned long n) {
-	unsigned int no_written = 0;
+	if ( !open() ) {
+		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		return -1;
+	}
+	unsigned long no_written = 0;
 	while ( no_written < n ) {
 		no_written += buffer.append(s+no_written,n-no_written);
 		if ( buffer.full() ) {
@@ -198,16 +228,25 @@ long SharedFile::write(const char* s, unsigned long n) {
 }
 
 bool SharedFile::flush() {
+	if ( !open() ) {
+		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		return false;
+	}
+	if ( buffer.size() == 0 ) {
+		error_handler = NoError;
+		return true;
+	}
 	long written;
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), buffer.size() );
 	} ecl_debug_catch(const StandardException &e) {
-		shared_instance->error_handler = shared_instance->file.error();
+		error_handler = shared_instance->file.error();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
 	buffer.clear();
 	// fallback for no exceptions
-	shared_instance->error_handler = shared_instance->file.error();
+	error_handler = shared_instance->file.error();
 	if ( written > 0 ) {
 		return true;
 	} else {
@@ -215,5 +254,4 @@ bool SharedFile::flush() {
 	}
 }
 
-
 } // namespace ecl
-- 
2.43.0


From ff358351ddb9743151284b17ab8b3c9ea62206ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:43 +0000
Subject: [PATCH 10/51] fix: string devices track their capacity and copy
 deeply; console reads tell end of file from characters

---
 ecl_devices/include/ecl/devices/string.hpp |  6 +++--
 ecl_devices/src/lib/console.cpp            |  7 +++---
 ecl_devices/src/lib/string.cpp             | 27 +++++++++++++++++++---
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/string.hpp b/ecl_devices/include/ecl/devices/string.hpp
index dcfb2fc..c63d827 100644
--- a/ecl_devices/include/ecl/devices/string.hpp
+++ b/ecl_devices/include/ecl/devices/string.hpp
@@ -57,6 +57,8 @@ public:
 	 * @param str : the input string to store in the buffer.
 	 **/
 	explicit String(const char* str = "");
+	String(const String& other);
+	String& operator=(const String& other);
 	/**
 	 * @brief Cleans up memory allocations.
 	 *
@@ -194,7 +196,7 @@ public:
 	bool isOpen() { return true; }; /**< Redundant api for the string device. **/
 
 private:
-	unsigned long buffer_length; // Actual reserved memory is this +1
+	unsigned long buffer_length; // Reserved memory, including the terminator
 	char *buffer;
 	char* buffer_cur_write;
 	char* buffer_cur_read;
@@ -207,7 +209,7 @@ private:
 	 *
 	 * @param no_bytes : the number of bytes to grow by.
 	 */
-	void grow(int no_bytes = 256);
+	void grow(unsigned long no_bytes = 256);
 
 };
 
diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..dc3d828 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -93,11 +93,12 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin);
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
+    	c = static_cast<char>(result);
 //    	while ( fgetc(stdin) != '\n' ) {}
     	return 1;
     }
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..8d1813e 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -32,6 +32,26 @@ String::String(const char* str)
     buffer_cur_write = buffer + buffer_length - 1;
     buffer_cur_read = buffer;
 }
+String::String(const String& other)
+{
+    buffer_length = other.buffer_length;
+    buffer = new char[buffer_length];
+    buffer_cur_write = buffer + (other.buffer_cur_write - other.buffer);
+    buffer_cur_read = buffer + (other.buffer_cur_read - other.buffer);
+    memcpy(buffer,other.buffer,size());
+}
+String& String::operator=(const String& other)
+{
+    if ( this != &other ) {
+        delete [] buffer;
+        buffer_length = other.buffer_length;
+        buffer = new char[buffer_length];
+        buffer_cur_write = buffer + (other.buffer_cur_write - other.buffer);
+        buffer_cur_read = buffer + (other.buffer_cur_read - other.buffer);
+        memcpy(buffer,other.buffer,size());
+    }
+    return *this;
+}
 String::~String() {
     delete [] buffer;
 }
@@ -45,11 +65,12 @@ std::string String::str() {
     return s;
 }
 
-void String::grow(int no_bytes) {
+void String::grow(unsigned long no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    buffer_length = size()+no_bytes+1;
+    new_buffer = new char[buffer_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
@@ -109,7 +130,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From 8567bda0ad8da86acd7354e128bff39f17850739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:00 +0000
Subject: [PATCH 11/51] fix: semaphores wait through interruptions; shared
 memory unmaps and removes only what it created

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 21 ++++++++++++++-----
 ecl_ipc/src/lib/semaphore_pos.cpp             |  7 +++++--
 ecl_ipc/src/lib/shared_memory_pos.cpp         |  3 ++-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..97c05cd 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -42,6 +42,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <cerrno>
 #include <sstream>
 #include <string>
 #include <sys/mman.h>        /* For shm_open() */
@@ -176,6 +177,7 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
 	int shm_descriptor = open();
     if ( shm_descriptor == -1) {
         ecl_throw( ipc::openSharedSectionException(LOC) );
+        return;
     }
     /*********************
      * Mapping
@@ -195,10 +197,14 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int mmap_errno = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) {
+            unlink(); // only remove what was created here
+        }
+        errno = mmap_errno; // cleaning up must not hide why the mapping failed
         ecl_throw( ipc::memoryMapException(LOC) );
+        return;
     }
     /*
      * When first created, the shared memory has 0 size. You need to inflate it before
@@ -206,10 +212,13 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
+        munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) {
+            unlink();
+        }
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
+        return;
     }
 
     /*********************
@@ -237,7 +246,9 @@ template <typename Storage>
 SharedMemory<Storage>::~SharedMemory()
 {
     /* Might be worth putting a check on this later (i.e. < 0 is an error). */
-    munmap( (void*) storage,shared_memory_size);
+    if ( storage != NULL ) {
+        munmap( (void*) storage,shared_memory_size);
+    }
 //    munmap(shm_address,shared_memory_size);
 
     if ( shared_memory_manager ) {
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..150768f 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -95,6 +95,9 @@ Semaphore::Semaphore(const std::string& string_id):
 
 Semaphore::~Semaphore()
 {
+	if ( semaphore == SEM_FAILED ) { // never opened, nothing to give back
+		return;
+	}
 	// Should check the error, but only fails if the semaphore is invalid (checked by constructor).
     sem_close(semaphore);
 	// Should check the error, but only fails with noncritical errors.
@@ -103,7 +106,7 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	while ( ( sem_wait(semaphore) != 0 ) && ( errno == EINTR ) ) {} // not taken yet if a signal interrupts
 }
 
 int Semaphore::count()
@@ -148,7 +151,7 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		ctime.tv_sec += timeout.sec();
 
 		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
+		if(tnsec >= 1000000000 ) { ctime.tv_sec += 1; }
 		tnsec %= 1000000000;
 		ctime.tv_nsec = tnsec;
 
diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..98e0901 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -38,6 +38,7 @@ namespace ipc {
 
 void SharedMemoryBase::unlink() {
 	shm_unlink(name.c_str());
+	shared_memory_manager = false; // there is no name left to look after
 }
 
 int SharedMemoryBase::open() {
@@ -91,7 +92,7 @@ int SharedMemoryBase::open() {
     if ( ( shm_descriptor == -1 ) && ( errno == EEXIST ) ) {
         // Maybe its already open, try opening it normally
         shm_descriptor = shm_open(name.c_str(),open_flags,permissions);
-    } else {
+    } else if ( shm_descriptor != -1 ) {
     	shared_memory_manager = true;
     }
     if ( shm_descriptor == -1) {
-- 
2.43.0


From 17965b3c03759b5ae4c6ecc24dff6876e5a623e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:53 +0000
Subject: [PATCH 12/51] fix: threads own their task until it ends, failed
 starts leave them startable, priorities report failure

---
 .../include/ecl/threads/thread_pos.hpp        | 34 +++++++++++--------
 .../include/ecl/threads/threadable.hpp        | 13 ++++++-
 ecl_threads/src/lib/priority_pos.cpp          |  8 ++---
 ecl_threads/src/lib/thread_pos.cpp            | 32 +++++++++--------
 4 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..beded39 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,10 +23,12 @@
 ** Includes
 *****************************************************************************/
 
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
 #include <ecl/concepts/nullary_function.hpp>
+#include <ecl/exceptions/macros.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/utilities/void.hpp>
 #include <ecl/utilities/function_objects.hpp>
@@ -92,12 +94,15 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
-	    ecl::set_priority(ptr->priority_level);
+	    // owned by the running thread: released however the function ends (it may be cancelled)
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
+	    ecl_try {
+	    	ecl::set_priority(ptr->priority_level);
+	    } ecl_catch ( const StandardException & ) {
+	    	// carry on with the priority the thread has, there is nobody here to catch this
+	    }
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +145,15 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
-	    ecl::set_priority(ptr->priority_level);
+	    // owned by the running thread: released however the function ends (it may be cancelled)
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
+	    ecl_try {
+	    	ecl::set_priority(ptr->priority_level);
+	    } ecl_catch ( const StandardException & ) {
+	    	// carry on with the priority the thread has, there is nobody here to catch this
+	    }
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -457,8 +465,6 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
@@ -470,6 +476,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -479,8 +486,6 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
@@ -492,6 +497,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..f74e996 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -79,7 +79,18 @@ public:
 	bool start(const Priority &priority = DefaultPriority) {
 		if ( isRunning() ) { return false; }
 		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
+		Thread thread;
+		Error result(NoError);
+		ecl_try {
+			result = thread.start(&Threadable::executeThreadFunction,*this, priority);
+		} ecl_catch ( const StandardException &e ) {
+			isRunning(false); // nothing has been started
+			ecl_throw(StandardException(LOC,e));
+		}
+		if ( result.flag() != NoError ) {
+			isRunning(false);
+			return false;
+		}
 		return true;
 	}
 	/**
diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..9e0d50f 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..8bbf7b6 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -43,8 +43,6 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
@@ -57,6 +55,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -78,25 +77,27 @@ Thread::~Thread() {
   }
 }
 void Thread::cancel() {
+  if ( !has_started || join_requested ) {
+      ecl_debug_throw(threads::throwPthreadCancelException(LOC,ESRCH));
+      return;
+  }
   int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
+  // The task object belongs to the running thread, which may still be using it
+  // and releases it when it stops, so just forget about it here.
+    thread_task = NULL;
     if ( result != 0 ) {
-        ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
+        ecl_debug_throw(threads::throwPthreadCancelException(LOC,result));
     }
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
+  if( has_started && !join_requested ) {
     int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
       ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
-      (void) result; // for unused variable warnings, in case the assert wasn't triggered
+      if ( result == 0 ) {
+        join_requested = true; // nothing left to detach
+        thread_task = NULL;
+      }
   }
 }
 
@@ -124,7 +125,10 @@ void Thread::initialise(const long &stack_size) {
     **************************************************************************/
     if ( stack_size != DefaultStackSize ) {
       int result = pthread_attr_setstacksize(&attrs,stack_size);
-      ecl_assert_throw( result == 0, StandardException(LOC,ConfigurationError,"Specified stack size was less than PTHREAD_STACK_MIN or wasn't a multiple of the page size."));
+      if ( result != 0 ) {
+        // nobody else releases the attributes if this throws
+        ecl_debug_throw( ( pthread_attr_destroy(&attrs), StandardException(LOC,ConfigurationError,"Specified stack size was less than PTHREAD_STACK_MIN or wasn't a multiple of the page size.") ) );
+      }
       (void) result; // for unused variable warnings, in case the assert wasn't triggered
     }
 }
-- 
2.43.0


From 74af602c3b9cbb9bd5df4a4aa12027b969f97cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:56 +0000
Subject: [PATCH 13/51] fix: copies of signals and slots share the connection,
 topics are only dropped when found

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp |  6 +++---
 ecl_sigslots/include/ecl/sigslots/signal.hpp  | 14 ++++++++++++--
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp |  4 +++-
 ecl_sigslots/include/ecl/sigslots/slot.hpp    | 14 ++++++++++++--
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..4930ce0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -121,9 +121,9 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..29358a7 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -74,7 +74,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		*this = signal;
 		sigslot->incrHandles();
 	}
@@ -97,6 +97,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles(); // first, it may be the same one
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -182,7 +187,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		*this = signal;
 		sigslot->incrHandles();
 	}
@@ -191,6 +196,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles(); // first, it may be the same one
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..7e3c934 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -167,7 +167,8 @@ public:
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -329,6 +330,7 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
 	}
 	/**
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..b84d122 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -116,7 +116,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		*this = slot;
 		sigslot->incrHandles();
 	}
@@ -138,6 +138,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles(); // first, it may be the same one
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -245,7 +250,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		*this = slot;
 		sigslot->incrHandles();
 	}
@@ -266,6 +271,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles(); // first, it may be the same one
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From 9ec0b9d58a02573dbc4904e52821cdffcdffddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 14/51] fix: processing slots are counted under the lock and
 the lock is free when they go

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 51 ++++++++++++++-----
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 7e3c934..b49f9f4 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -21,6 +21,7 @@
 #include <map>
 #include <set>
 #include <string>
+#include <thread>
 #include <ecl/config/macros.hpp>
 #include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/function_objects.hpp>
@@ -90,7 +91,7 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		while ( processing() ) { std::this_thread::yield(); } // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
 	}
 
@@ -121,12 +122,8 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		ProcessingGuard guard(*this);
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -191,7 +188,22 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
-	Mutex mutex;
+	/**
+	 * @brief Counts a running process(), however it ends.
+	 */
+	class ProcessingGuard {
+	public:
+		ProcessingGuard(SigSlot &s) : sigslot(s) { sigslot.mutex.lock(); ++sigslot.processing_count; sigslot.mutex.unlock(); }
+		~ProcessingGuard() { sigslot.mutex.lock(); --sigslot.processing_count; sigslot.mutex.unlock(); }
+	private:
+		SigSlot &sigslot;
+	};
+	/**
+	 * @brief Whether the function is being run by anyone right now.
+	 */
+	bool processing() { mutex.lock(); bool result = ( processing_count != 0 ); mutex.unlock(); return result; }
+
+	Mutex mutex; // protects the processing count
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
@@ -254,7 +266,7 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		while ( processing() ) { std::this_thread::yield(); } // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
 	}
 
@@ -286,12 +298,8 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		ProcessingGuard guard(*this);
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -352,7 +360,22 @@ public:
 	}
 
 private:
-	Mutex mutex;
+	/**
+	 * @brief Counts a running process(), however it ends.
+	 */
+	class ProcessingGuard {
+	public:
+		ProcessingGuard(SigSlot &s) : sigslot(s) { sigslot.mutex.lock(); ++sigslot.processing_count; sigslot.mutex.unlock(); }
+		~ProcessingGuard() { sigslot.mutex.lock(); --sigslot.processing_count; sigslot.mutex.unlock(); }
+	private:
+		SigSlot &sigslot;
+	};
+	/**
+	 * @brief Whether the function is being run by anyone right now.
+	 */
+	bool processing() { mutex.lock(); bool result = ( processing_count != 0 ); mutex.unlock(); return result; }
+
+	Mutex mutex; // protects the processing count
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
-- 
2.43.0


From ac7f378cbc160853d77ef21f7119ff2442f0df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 15/51] fix: dynamic arrays survive self assignment, empty
 access checks and failed resizes

---
 .../array/array_dynamic_mem_check.hpp         | 19 ++++++++++---------
 .../array/array_dynamic_no_mem_check.hpp      | 14 +++++++++-----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..05875ff 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
@@ -357,7 +360,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         reference front() {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[0];
         }
         /**
@@ -367,7 +370,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         const_reference front() const {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[0];
         }
         /**
@@ -377,7 +380,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         reference back() {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[buffer_size-1];
         }
         /**
@@ -387,7 +390,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         const_reference back() const {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[buffer_size-1];
         }
 
@@ -494,12 +497,10 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n )  {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        	}
-            buffer_size = n;
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
+        	clear();
+        	underrun = (char*) malloc(n*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
         	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
+            buffer_size = n;
         	buffer = (Type*) (underrun+bufferUnderrunLength());
         	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
         	// Leave it uninitialised, just like eigen containers...faster
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..869cf9c 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
@@ -344,7 +347,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         reference front() {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[0];
         }
         /**
@@ -354,7 +357,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         const_reference front() const {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[0];
         }
         /**
@@ -364,7 +367,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         reference back() {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[buffer_size-1];
         }
         /**
@@ -374,7 +377,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @exception StandardException : throws if no storage has been allocated [debug mode only].
          */
         const_reference back() const {
-            ecl_assert_throw( buffer != NULL, StandardException(LOC,OutOfRangeError) );
+            ecl_assert_throw( buffer_size != 0, StandardException(LOC,OutOfRangeError) );
             return buffer[buffer_size-1];
         }
 
@@ -481,10 +484,11 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n ) {
+            Type *new_buffer = new Type[n]; // if this throws, the array is left as it was
             if ( buffer != NULL ) {
                 delete[] buffer;
             }
-            buffer = new Type[n];
+            buffer = new_buffer;
             buffer_size = n;
         }
         /**
-- 
2.43.0


From 6c94356c542d70aaf927c70d146ac90e1aa04bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 16/51] fix: stencil accesses and sub stencils are checked
 against the window

---
 .../containers/stencil/specialisations.hpp    | 70 ++++++++++---------
 .../ecl/containers/stencil/stencil.hpp        | 35 +++++-----
 2 files changed, 54 insertions(+), 51 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..3bc577f 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -75,8 +75,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -98,8 +98,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -119,8 +119,8 @@ public:
    */
   Stencil<unsigned char*> stencil(const unsigned int& start_index, const unsigned int& n) const
   {
-    ecl_assert_throw( b_iter+start_index <= array+length, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
-    ecl_assert_throw( b_iter+start_index+n <= array+length, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index <= e_iter, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index+n <= e_iter, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
     // cant do out of range errors here (no idea how long the underlying array is!)
     return Stencil<unsigned char*>(array,length,b_iter+start_index,b_iter+start_index+n);
   }
@@ -138,11 +138,10 @@ public:
    */
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
-
+    ecl_assert_throw(array+start_index <= array+length, StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(array+start_index+n <= array+length, StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /*********************
@@ -281,7 +280,7 @@ public:
    */
   reference front()
   {
-    ecl_assert_throw( b_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -291,7 +290,7 @@ public:
    */
   const_reference front() const
   {
-    ecl_assert_throw( b_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -301,7 +300,7 @@ public:
    */
   reference back()
   {
-    ecl_assert_throw( e_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
   /**
@@ -311,7 +310,7 @@ public:
    */
   const_reference back() const
   {
-    ecl_assert_throw( e_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
 
@@ -329,6 +328,7 @@ public:
    **/
   reference operator[](size_type i)
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -346,6 +346,7 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -362,11 +363,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( ( b_iter < array ) || ( b_iter+i >= array+length ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,11 +387,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( ( b_iter < array ) || ( b_iter+i >= array+length ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -489,8 +490,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -512,8 +513,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -533,8 +534,8 @@ public:
    */
   Stencil<const unsigned char*> stencil(const unsigned int& start_index, const unsigned int& n) const
   {
-    ecl_assert_throw( b_iter+start_index <= array+length, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
-    ecl_assert_throw( b_iter+start_index+n <= array+length, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index <= e_iter, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index+n <= e_iter, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
     // cant do out of range errors here (no idea how long the underlying array is!)
     return Stencil<const unsigned char*>(array,length,b_iter+start_index,b_iter+start_index+n);
   }
@@ -552,11 +553,10 @@ public:
    */
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
-
+    ecl_assert_throw(array+start_index <= array+length, StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(array+start_index+n <= array+length, StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
@@ -674,7 +674,7 @@ public:
    */
   reference front()
   {
-    ecl_assert_throw( b_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -684,7 +684,7 @@ public:
    */
   const_reference front() const
   {
-    ecl_assert_throw( b_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -694,7 +694,7 @@ public:
    */
   reference back()
   {
-    ecl_assert_throw( e_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
   /**
@@ -704,7 +704,7 @@ public:
    */
   const_reference back() const
   {
-    ecl_assert_throw( e_iter <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
 
@@ -722,6 +722,7 @@ public:
    **/
   reference operator[](size_type i)
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -739,6 +740,7 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -755,11 +757,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( ( b_iter < array ) || ( b_iter+i >= array+length ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,11 +781,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( ( b_iter < array ) || ( b_iter+i >= array+length ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..59286b3 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -117,7 +117,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -142,7 +142,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -162,8 +162,8 @@ public:
    */
   Stencil<Array> stencil(const unsigned int& start_index, const unsigned int& n) const
   {
-    ecl_assert_throw( b_iter+start_index < array.end(), StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
-    ecl_assert_throw( b_iter+start_index+n <= array.end(), StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index < e_iter, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying stencil size."));
+    ecl_assert_throw( b_iter+start_index+n <= e_iter, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying stencil size."));
     return Stencil<Array>(array,b_iter+start_index,b_iter+start_index+n);
   }
 
@@ -180,11 +180,10 @@ public:
    */
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
-
+    ecl_assert_throw(array.begin()+start_index <= array.end(), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(array.begin()+start_index+n <= array.end(), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array.begin()+start_index;
     e_iter = array.begin()+start_index+n;
-    ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /*********************
@@ -203,9 +202,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
@@ -349,7 +348,7 @@ public:
    */
   reference front()
   {
-    ecl_assert_throw( b_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -359,7 +358,7 @@ public:
    */
   const_reference front() const
   {
-    ecl_assert_throw( b_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *b_iter;
   }
   /**
@@ -369,7 +368,7 @@ public:
    */
   reference back()
   {
-    ecl_assert_throw( e_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
   /**
@@ -379,7 +378,7 @@ public:
    */
   const_reference back() const
   {
-    ecl_assert_throw( e_iter <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter < e_iter, StandardException(LOC,OutOfRangeError));
     return *(e_iter-1);
   }
 
@@ -397,6 +396,7 @@ public:
    **/
   reference operator[](size_type i)
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -414,6 +414,7 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
     ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
@@ -430,11 +431,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array.end() )
+    if ( ( b_iter < array.begin() ) || ( b_iter+i >= array.end() ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,11 +455,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array.end() )
+    if ( ( b_iter < array.begin() ) || ( b_iter+i >= array.end() ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From b348c1eeb3921634143d3eca39e4fc3982390c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:17 +0000
Subject: [PATCH 17/51] fix: queues restart when resized and refuse access when
 empty

---
 ecl_containers/include/ecl/containers/fifo.hpp       |  6 +++++-
 .../containers/push_and_pop/push_and_pop_dynamic.hpp | 12 +++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..c1e7e84 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -120,6 +120,7 @@ public:
 	 * @return T& : reference (modifiable) to the indexed element.
 	 */
 	T & operator[] (int idx) {
+		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO has a zero size buffer"));
 		return data[ ((running_index+idx)%size_fifo) ];
 	}
 
@@ -130,6 +131,7 @@ public:
 	 * @return const T& : const reference to the indexed element.
 	 */
 	const T & operator[] (int idx) const {
+		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO has a zero size buffer"));
 		return data[ ((running_index+idx)%size_fifo) ];
 	}
 
@@ -141,6 +143,7 @@ public:
 	 * @param datum : incoming value.
 	 */
 	void push_back( const T & datum ) {
+		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO has a zero size buffer"));
 		data[ running_index++ ] = datum;
 		running_index %= size_fifo;
 	}
@@ -165,8 +168,9 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+		running_index = 0;
 		data.resize( size_fifo );
 	}
 
diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..a0be65f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -87,7 +87,10 @@ public:
    *
    * Creates a dynamic push and pop container of zero length.
    */
-  PushAndPop() : size_fifo(0), leader(0), follower(0) {}
+  PushAndPop() : size_fifo(1), leader(0), follower(0)
+  {
+    data.resize( size_fifo );
+  }
 
   PushAndPop( const unsigned int length )
   : size_fifo(length+1), leader(0), follower(0)
@@ -209,10 +212,8 @@ public:
   {
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
+    size_fifo = otherOne.size_fifo;
+    data = otherOne.data;
   }
 
   /**
@@ -251,6 +252,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear(); // the array doesn't keep its contents when resized
   }
 
   /**
-- 
2.43.0


From c6c97d058ac32a9478a8bb501f39aa302dba38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 18/51] fix: character string converters survive copies, failed
 allocations and small buffers; negative chars keep their value

---
 .../include/ecl/converters/char_strings.hpp   | 73 +++++++++++++++----
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..bfd01b7 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -74,14 +74,37 @@ class CharStringBuffer : public ConverterBase {
          * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
          * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
          **/
-        CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
-           	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
-           	if ( buffer_begin == NULL ) {
-           		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
-           		error_handler = ecl::MemoryError;
-           	}
+        CharStringBuffer(int buffer_size = 250) : buffer_begin(NULL), buffer_end(NULL), delete_buffer(true) {
+            allocate(buffer_size);
+        }
+        /**
+         * @brief Copies never share an internal buffer, they get one of their own (of the same size).
+         *
+         * @param other : the buffer to copy.
+         * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
+         **/
+        CharStringBuffer(const CharStringBuffer &other) :
+            ConverterBase(other), buffer_begin(other.buffer_begin), buffer_end(other.buffer_end), delete_buffer(other.delete_buffer) {
+            copy_buffer();
+        }
+        /**
+         * @brief Copies never share an internal buffer, they get one of their own (of the same size).
+         *
+         * @param other : the buffer to copy.
+         * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
+         **/
+        CharStringBuffer& operator=(const CharStringBuffer &other) {
+            if ( this != &other ) {
+                if ( delete_buffer ) {
+                    delete[] buffer_begin;
+                }
+                ConverterBase::operator=(other);
+                buffer_begin = other.buffer_begin;
+                buffer_end = other.buffer_end;
+                delete_buffer = other.delete_buffer;
+                copy_buffer();
+            }
+            return *this;
         }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
@@ -96,6 +119,26 @@ class CharStringBuffer : public ConverterBase {
         char *buffer_begin;
         char *buffer_end;
         bool delete_buffer;
+
+    private:
+        void allocate(int buffer_size) {
+            buffer_begin = new (std::nothrow) char[buffer_size];
+            if ( buffer_begin == NULL ) {
+                buffer_end = NULL;
+                ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
+                error_handler = ecl::MemoryError;
+                return;
+            }
+            buffer_end = buffer_begin + buffer_size - 1;
+            *buffer_end = '\0';
+        }
+        void copy_buffer() {
+            if ( delete_buffer && buffer_begin != NULL ) {
+                int buffer_size = static_cast<int>(buffer_end - buffer_begin) + 1;
+                buffer_begin = NULL; // still owned by the other buffer
+                allocate(buffer_size);
+            }
+        }
 };
 
 /*****************************************************************************
@@ -115,6 +158,7 @@ class CharStringBuffer : public ConverterBase {
 template <typename Number>
 char* convertUnsignedIntegral(Number number, char* buffer_begin, char* buffer_end)
 {
+    if ( buffer_begin == NULL ) { return NULL; } // There is no buffer
     *(buffer_end) = '\0'; // Set to the null terminator
     Number lsd;
     char* str_ptr = buffer_end;
@@ -143,10 +187,11 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     typedef typename Unsigned<Number>::type UnsignedNumber;
 
     char *s;
+    if ( buffer_begin == NULL ) { return NULL; } // There is no buffer
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(0 - static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
@@ -211,7 +256,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
@@ -835,9 +880,11 @@ class Converter<char*,bool> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const bool &input){
-            *buffer_begin = '\0';
-            input ? strcat(buffer_begin,"true") : strcat (buffer_begin,"false");
-            return buffer_begin;
+            const char *text = input ? "true" : "false";
+            if ( buffer_begin == NULL || static_cast<size_t>(buffer_end - buffer_begin) < strlen(text) ) {
+                return NULL; // it does not fit
+            }
+            return strcpy(buffer_begin,text);
         }
 };
 
-- 
2.43.0


From 9b975089347b53dcb6d8843aae0db993de1cf09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 19/51] fix: byte array converters keep the high bytes and
 refuse truncated or oversize input

---
 .../include/ecl/converters/from_byte_array.hpp           | 5 ++++-
 ecl_converters/include/ecl/converters/to_byte_array.hpp  | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..2430df4 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -85,14 +85,17 @@ public:
       ecl_debug_throw(
           StandardException(LOC,ConversionError,"The byte array is too long for the integral type specified."));
       error_handler = ConversionError;
+      return 0;
     }
+    error_handler = NoError;
     /*********************
      ** Method
      **********************/
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      // widen before shifting, the higher bytes do not fit an int
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i);
     }
     if (ecl::is_signed<Integral>::value)
     {
diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..457aaa3 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -95,6 +95,8 @@ public:
       return byte_array;
     }
 
+    error_handler = NoError;
+
     /*********************
      ** Method
      **********************/
@@ -285,6 +287,7 @@ public:
 
     std::vector<char> bytes;
     state = waiting_zero;
+    error_handler = NoError;
 
     while (*input != '\0')
     {
@@ -385,6 +388,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero) // the text ends in the middle of a byte
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From e0f10c1b548ce1d603282f007d763ae6da1ed67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 20/51] fix: integer and string converters handle the smallest
 integer and report errors as documented

---
 ecl_converters/include/ecl/converters/char.hpp     | 6 ++++++
 ecl_converters/include/ecl/converters/integers.hpp | 5 +++++
 ecl_converters/include/ecl/converters/string.hpp   | 6 +++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char.hpp b/ecl_converters/include/ecl/converters/char.hpp
index 09139f7..88b4e25 100644
--- a/ecl_converters/include/ecl/converters/char.hpp
+++ b/ecl_converters/include/ecl/converters/char.hpp
@@ -59,6 +59,9 @@ public:
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
 		}
+		else {
+			error_handler = NoError;
+		}
 		return ('0'+ input%10);    // Copy the char back.
 	}
 };
@@ -89,6 +92,9 @@ public:
 			ecl_debug_throw(StandardException(LOC,OutOfRangeError));
 			error_handler = OutOfRangeError;
 		}
+		else {
+			error_handler = NoError;
+		}
 		return ('0'+ input%10);    // Copy the char back.
 	}
 };
diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index f8fc62d..6af96ac 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -18,6 +18,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <limits>
 #include <string>
 #include <sstream>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -61,7 +62,9 @@ public:
 		if ( !( stream >> i ) || (stream.get(c))) { // Second part checks that there isn't leftover characters
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return std::numeric_limits<int>::min();
 		}
+		error_handler = NoError;
 		return i;
 	}
 };
@@ -89,7 +92,9 @@ public:
 		if ( ( c < '0' ) || (c > '9') ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return -1;
 		}
+		error_handler = NoError;
 		return static_cast<int>(c - '0');
 	}
 };
diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..5ba7eb5 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = input;
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0 - remaining; // unsigned, the smallest integer has no positive counterpart
 		}
 		do
 		{
-- 
2.43.0


From 8f59af6b4f5f6b3a4d847bcb7f227efb614986fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:39 +0000
Subject: [PATCH 21/51] fix: formatters: copies use their own settings,
 temporary settings serve exactly once, large numbers are not cut off

---
 .../include/ecl/formatters/floats.hpp         | 63 ++++++++++++-------
 .../include/ecl/formatters/number.hpp         | 41 +++++++++---
 .../include/ecl/formatters/strings.hpp        | 15 +++--
 ecl_formatters/src/lib/strings.cpp            | 10 ++-
 4 files changed, 93 insertions(+), 36 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..43d19d0 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -79,7 +79,34 @@ public:
 		precision_(&prm_precision),
 		alignment_(&prm_alignment),
 		base_(&prm_base),
-		ready_to_format(false) {}
+		ready_to_format(false),
+		value_()
+	{
+		tmp_width = prm_width;
+		tmp_precision = prm_precision;
+		tmp_base = prm_base;
+	}
+	/**
+	 * Copy constructor. The copy uses its own settings, not those of the original.
+	 * @param other : the formatter to copy.
+	 **/
+	FormatFloat(const FormatFloat<Number>& other) { *this = other; }
+	/**
+	 * Copy assignment. The copy uses its own settings, not those of the original.
+	 * @param other : the formatter to copy.
+	 * @return FormatFloat& : this formatter.
+	 **/
+	FormatFloat<Number>& operator=(const FormatFloat<Number>& other) {
+		const bool temporary = ( other.width_ != &(other.prm_width) );
+		prm_width = other.prm_width; tmp_width = other.tmp_width;
+		prm_precision = other.prm_precision; tmp_precision = other.tmp_precision;
+		prm_alignment = other.prm_alignment; tmp_alignment = other.tmp_alignment;
+		prm_base = other.prm_base; tmp_base = other.tmp_base;
+		ready_to_format = other.ready_to_format;
+		value_ = other.value_;
+		if ( temporary ) { useTemporarySettings(); } else { useStoredSettings(); }
+		return *this;
+	}
 
 	virtual ~FormatFloat() {}
 
@@ -130,14 +157,14 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
 	 *
 	 * @return int : the width value (-1 for no constraint).
 	 */
-	int width() { return *width_; }
+	int width() const { return *width_; }
 
 	/******************************************
 	 * Set Format Combinations
@@ -222,6 +249,9 @@ protected:
 	bool ready_to_format;
 	Number value_;
 
+	void useStoredSettings() { width_ = &prm_width; precision_ = &prm_precision; alignment_ = &prm_alignment; base_ = &prm_base; }
+	void useTemporarySettings() { width_ = &tmp_width; precision_ = &tmp_precision; alignment_ = &tmp_alignment; base_ = &tmp_base; }
+
 	/******************************************
 	** Padding
 	*******************************************/
@@ -288,6 +318,7 @@ FormatFloat<Number>& FormatFloat<Number>::align(const ecl::Alignment a)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator () (const unsigned int p, const int w)
 {
+    useStoredSettings();
     width(w);
     precision(p);
     return *this;
@@ -296,6 +327,7 @@ FormatFloat<Number>& FormatFloat<Number>::operator () (const unsigned int p, con
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator () (const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
+    useStoredSettings();
     width(w);
     precision(p);
     align(a);
@@ -309,6 +341,7 @@ FormatFloat<Number>& FormatFloat<Number>::operator () (const unsigned int p, con
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 {
+    useStoredSettings();
     value_ = n;
     ready_to_format = true;
     return *this;
@@ -319,16 +352,10 @@ FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
-    width_ = &tmp_width;
+    useTemporarySettings();
+    tmp_alignment = prm_alignment;
     width(w);
-
-    precision_ = &tmp_precision;
     precision(p);
-
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
-    base_ = &tmp_base;
     base(prm_base);
 
     value_ = n;
@@ -339,16 +366,10 @@ FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned i
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
-    width_ = &tmp_width;
+    useTemporarySettings();
     width(w);
-
-    precision_ = &tmp_precision;
     precision(p);
-
-    alignment_ = &tmp_alignment;
     align(a);
-
-    base_ = &tmp_base;
     base(b);
 
     value_ = n;
@@ -365,11 +386,11 @@ template <typename Number>
 void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
 {
     static char format_specifier[6] = "%.xff";
-    if ( *precision_ < 10 ) {
+    if ( ( *precision_ >= 0 ) && ( *precision_ < 10 ) ) {
         format_specifier[2] = '0'+*precision_;
         format_specifier[3] = 'f';
         format_specifier[4] = '\0';
-    } else if ( *precision_ < 20 )  {
+    } else if ( ( *precision_ >= 10 ) && ( *precision_ < 20 ) )  {
         format_specifier[2] = '1';
         format_specifier[3] = '0'+(*precision_ - 10);
         format_specifier[4] = 'f';
@@ -378,7 +399,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
+    static const int buffer_size = 350; // room for the largest double (309 digits) with 20 decimals
     static char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..3471beb 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -65,7 +65,31 @@ class FormatNumber {
          * @param a : the textual alignment (default - no alignment constraints)
          * @param b : the base format for the integral representation (default - decimal)
          **/
-        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
+        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false),value_() {
+            tmp_width = prm_width;
+            tmp_alignment = prm_alignment;
+            tmp_base = prm_base;
+        }
+        /**
+         * Copy constructor. The copy uses its own settings, not those of the original.
+         * @param other : the formatter to copy.
+         **/
+        FormatNumber(const FormatNumber<Number>& other) { *this = other; }
+        /**
+         * Copy assignment. The copy uses its own settings, not those of the original.
+         * @param other : the formatter to copy.
+         * @return FormatNumber& : this formatter.
+         **/
+        FormatNumber<Number>& operator=(const FormatNumber<Number>& other) {
+            const bool temporary = ( other.width_ != &(other.prm_width) );
+            prm_width = other.prm_width; tmp_width = other.tmp_width;
+            prm_alignment = other.prm_alignment; tmp_alignment = other.tmp_alignment;
+            prm_base = other.prm_base; tmp_base = other.tmp_base;
+            ready_to_format = other.ready_to_format;
+            value_ = other.value_;
+            if ( temporary ) { useTemporarySettings(); } else { useStoredSettings(); }
+            return *this;
+        }
 
         virtual ~FormatNumber() {}
 
@@ -163,6 +187,9 @@ class FormatNumber {
         bool ready_to_format;
         Number value_;
 
+        void useStoredSettings() { width_ = &prm_width; alignment_ = &prm_alignment; base_ = &prm_base; }
+        void useTemporarySettings() { width_ = &tmp_width; alignment_ = &tmp_alignment; base_ = &tmp_base; }
+
         /******************************************
         ** Padding
         *******************************************/
@@ -212,6 +239,7 @@ FormatNumber<Number>& FormatNumber<Number>::align(ecl::Alignment a)
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator () (int w, ecl::Alignment a, ecl::IntegralBase b)
 {
+    useStoredSettings();
     base(b);
     width(w);
     align(a);
@@ -312,6 +340,7 @@ void FormatNumber<Number>::pad(int n, OutputStream &ostream) const
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator()(Number n)
 {
+    useStoredSettings();
     value_ = n;
     ready_to_format = true;
     return *this;
@@ -327,9 +356,8 @@ FormatNumber<Number>& FormatNumber<Number>::operator()(Number n)
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::IntegralBase b)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    base_ = &tmp_base;
+    useTemporarySettings();
+    tmp_alignment = prm_alignment;
     base(b);
     width(w);
     value_ = n;
@@ -342,9 +370,8 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::Alignment a, ecl::IntegralBase b)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    base_ = &tmp_base;
+    useTemporarySettings();
+    tmp_alignment = prm_alignment;
     base(b);
     width(w);
     align(a);
diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..cc87cd3 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),tmp_width_(w),tmp_alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -131,6 +131,9 @@ class ecl_formatters_PUBLIC Format<std::string> {
         *******************************************/
         int width_;
         Alignment alignment_;
+        int tmp_width_;
+        Alignment tmp_alignment_;
+        bool temporary_;
         bool ready_to_format;
         std::string s;
 
@@ -174,17 +177,18 @@ template <typename OutputStream>
 void Format<std::string>::format(OutputStream &ostream) const
 {
     int size = s.size();
+    int width = temporary_ ? tmp_width_ : width_;
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    prePad(width - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(width - (size),ostream);
 }
 
 template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +201,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
@@ -232,6 +236,7 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
 
     if ( ready ) {
         formatter.format(ostream);
+        formatter.temporary_ = false;
         formatter.ready_to_format = false;
     }
 
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..7750dbf 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -38,6 +38,7 @@ Format<std::string>& Format<std::string>::operator () (int w, Alignment a)
 Format<std::string>& Format<std::string>::operator()(const std::string &input_string)
 {
     s =  input_string;
+    temporary_ = false;
     ready_to_format = true;
     return *this;
 }
@@ -47,15 +48,18 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
+    tmp_width_ = w;
+    tmp_alignment_ = alignment_;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
+    tmp_width_ = w;
+    tmp_alignment_ = a;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From 9e80d2168a45dff78fb34b102bccb92b7b83d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:39 +0000
Subject: [PATCH 22/51] fix: float container formatters: empty containers,
 copies and unused temporary settings

---
 .../ecl/containers/common/formatters.hpp      | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..4267021 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -81,7 +81,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision(-1),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            temporary_width(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -123,7 +123,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param w : the width to use for the inserted float.
          * @return FloatContainerFormatter& : this formatter readied for use with a stream.
          */
-        FloatContainerFormatter& operator()(const unsigned int p, const int w) { format.precision(p); prm_width = w; return *this; } // Permanent
+        FloatContainerFormatter& operator()(const unsigned int p, const int w) { restore(); format.precision(p); prm_width = w; return *this; } // Permanent
         /**
          * Convenient stream formatter. This function directly readies the formatter
          * with the specified container and the stored (permanent) settings.
@@ -134,7 +134,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param c : the input container to be formatted.
          * @return FormatFloat& : this formatter readied for use with a stream.
          **/
-        FloatContainerFormatter& operator()(const Container &c) { container = &c; ready_to_format = true; return *this; }
+        FloatContainerFormatter& operator()(const Container &c) { restore(); container = &c; ready_to_format = true; return *this; }
         /**
          * Convenient stream formatter. This function directly readies the formatter
          * with the specified container and configures a temporary setting for
@@ -149,12 +149,13 @@ class ECL_LOCAL FloatContainerFormatter {
          * @return FormatFloat& : this formatter readied for use with a stream.
          **/
         FloatContainerFormatter& operator()(Container &c, const unsigned int p, const int w) {
+            restore();
             container = &c;
             ready_to_format = true;
             old_precision = format.precision();
             format.precision(p);
             tmp_width = w;
-            width_ptr = &tmp_width;
+            temporary_width = true;
             return *this;
         } //temporary
 
@@ -172,10 +173,18 @@ class ECL_LOCAL FloatContainerFormatter {
 
     private:
         long digits(value_type min_coeff, value_type max_coeff);
+        // drop the temporary (one-shot) settings
+        void restore() {
+            if ( old_precision != -1 ) {
+                format.precision(old_precision);
+                old_precision = -1;
+            }
+            temporary_width = false;
+        }
 
         int old_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool temporary_width;
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -220,7 +229,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
+    if ( ( width == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -240,7 +250,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
@@ -256,12 +266,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
     /*********************
     ** Reset if temporary
     **********************/
-    if ( formatter.old_precision != -1 ) {
-        formatter.format.precision(formatter.old_precision);
-        formatter.old_precision = -1;
-
-    }
-    formatter.width_ptr = &(formatter.prm_width);
+    formatter.restore();
     formatter.ready_to_format = false;
 
     ostream.flush();
-- 
2.43.0


From c206bc7f4c001acde86d007790e667daaa6ed2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:28 +0000
Subject: [PATCH 23/51] fix: bound member functions with a result compile,
 ReferenceWrapper::pointer() compiles

---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 ecl_utilities/include/ecl/utilities/references.hpp       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From 0e6b101ae6f50286847ab445b27a030f8a0eb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:28 +0000
Subject: [PATCH 24/51] fix: realpath() neither leaks nor reads its buffer when
 the path cannot be resolved

---
 ecl_filesystem/src/lib/realpath.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..38cfda6 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -45,23 +45,23 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
 
   char *buffer = new char[path_max];
   char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
+  Error error(NoError);
   if ( result != NULL ) {
     absolute_path = buffer;
   } else {
     switch(errno) {
-      case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
-      case(EINVAL)       : { return Error(InvalidArgError); }    // path is NULL
-      case(EIO)          : { return Error(ReadError); }          // An I/O error occurred while reading from the filesystem.
-      case(ELOOP)        : { return Error(InvalidObjectError); } // too many symbolic links were encountered in translating the pathname
-      case(ENAMETOOLONG) : { return Error(InvalidArgError); }    // A component of a pathname exceeded NAME_MAX characters, or an entire pathname exceeded PATH_MAX characters.
-      case(ENOENT)       : { return Error(NotFoundError); }      // The named file does not exist
-      case(ENOTDIR)      : { return Error(InvalidObjectError); } // A component of the path prefix is not a directory.
-      default            : { return Error(UnknownError); }
+      case(EACCES)       : { error = Error(PermissionsError); break; }   // Read or search permission was denied for a component of the path prefix.
+      case(EINVAL)       : { error = Error(InvalidArgError); break; }    // path is NULL
+      case(EIO)          : { error = Error(ReadError); break; }          // An I/O error occurred while reading from the filesystem.
+      case(ELOOP)        : { error = Error(InvalidObjectError); break; } // too many symbolic links were encountered in translating the pathname
+      case(ENAMETOOLONG) : { error = Error(InvalidArgError); break; }    // A component of a pathname exceeded NAME_MAX characters, or an entire pathname exceeded PATH_MAX characters.
+      case(ENOENT)       : { error = Error(NotFoundError); break; }      // The named file does not exist
+      case(ENOTDIR)      : { error = Error(InvalidObjectError); break; } // A component of the path prefix is not a directory.
+      default            : { error = Error(UnknownError); break; }
     }
   }
   delete[] buffer;
-  return Error(NoError);
+  return error;
 }
 
 } // namespace ecl
-- 
2.43.0


From 1ab335ba85a259f165c42c2d15cfac2454516b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 25/51] fix: owners of files, ports and sockets cannot be
 copied, two objects would close the same handle

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp         | 4 ++++
 ecl_devices/include/ecl/devices/serial_pos.hpp        | 4 ++++
 ecl_devices/include/ecl/devices/shared_file.hpp       | 4 ++++
 ecl_devices/include/ecl/devices/socket_client_pos.hpp | 4 ++++
 ecl_devices/include/ecl/devices/socket_server_pos.hpp | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..043ecda 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -291,6 +291,10 @@ public:
 	const Error& error() const { return error_handler; }
 
 private:
+	// not copyable, two objects would close the same file
+	OFile(const OFile &) = delete;
+	OFile & operator=(const OFile &) = delete;
+
 	/*********************
 	** Variables
 	**********************/
diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index c231560..deedbb9 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -374,6 +374,10 @@ namespace ecl
     const Error& error() const
     { return error_handler;}
   private:
+    // not copyable, two objects would close the same port
+    Serial(const Serial &) = delete;
+    Serial & operator=(const Serial &) = delete;
+
     /*********************
      ** Constants
      **********************/
diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 366fc2f..4dfc1c2 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -230,6 +230,10 @@ public:
 	const Error& error() const { return error_handler; }
 
 private:
+	// not copyable, a copy would not be counted as a user of the file
+	SharedFile(const SharedFile &) = delete;
+	SharedFile & operator=(const SharedFile &) = delete;
+
 	/**
 	 * @brief Flushes the buffer and gives up the shared instance (if there is one).
 	 *
diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index b218e66..f584429 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -191,6 +191,10 @@ public:
 	const Error& error() const { return error_handler; }
 
 private:
+	// not copyable, two objects would close the same socket
+	SocketClient(const SocketClient &) = delete;
+	SocketClient & operator=(const SocketClient &) = delete;
+
     std::string hostname;
     int port;
     int socket_fd;
diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 8f360fc..9143b88 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -220,6 +220,10 @@ public:
 	const Error& error() const { return error_handler; }
 
 private:
+	// not copyable, two objects would close the same socket
+	SocketServer(const SocketServer &) = delete;
+	SocketServer & operator=(const SocketServer &) = delete;
+
     void disconnect() {
         if ( client_socket_fd >= 0 ) {
             ::close(client_socket_fd);
-- 
2.43.0


From 3b048f0510864a09d35af819065c72ee89a27038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 26/51] fix: semaphores and shared memory cannot be copied, two
 objects would release the same handle

---
 ecl_ipc/include/ecl/ipc/semaphore_pos.hpp     | 4 ++++
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
index d149c13..f2e9ee9 100644
--- a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
@@ -181,6 +181,10 @@ public:
 	bool trylock( const Duration &timeout );
 
 private:
+	// not copyable, two objects would close the same semaphore
+	Semaphore(const Semaphore &) = delete;
+	Semaphore & operator=(const Semaphore &) = delete;
+
 	std::string name;
 	sem_t* semaphore;
 
diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 97c05cd..a504780 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -148,6 +148,10 @@ public:
 	Storage* data() { return storage; }         /**< Data storage accessor. **/
 
 private:
+	// not copyable, two objects would unmap the same memory
+	SharedMemory(const SharedMemory &) = delete;
+	SharedMemory & operator=(const SharedMemory &) = delete;
+
 	SharedMemory() {} /**< @brief Default constructor - use is forbidden. **/
 	const int shared_memory_size;
 	Storage *storage;
-- 
2.43.0


From a98e300ee7fad4663fb47ef9d17e3449905509df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 27/51] fix: threads cannot be copied, two objects would join
 or detach the same thread

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index beded39..dbecde6 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -422,6 +422,10 @@ public:
 
 
 private:
+	// not copyable, two objects would join or detach the same thread
+	Thread(const Thread &) = delete;
+	Thread & operator=(const Thread &) = delete;
+
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-- 
2.43.0


From f8f6705c21b1c7b123cb5a7d6e8046af17345099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 28/51] fix: signed char is an integral, signed type with an
 unsigned counterpart

---
 ecl_mpl/include/ecl/mpl/converters.hpp           |  2 ++
 .../ecl/type_traits/fundamental_types.hpp        | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/ecl_mpl/include/ecl/mpl/converters.hpp b/ecl_mpl/include/ecl/mpl/converters.hpp
index 9cf82c9..db3e883 100644
--- a/ecl_mpl/include/ecl/mpl/converters.hpp
+++ b/ecl_mpl/include/ecl/mpl/converters.hpp
@@ -27,6 +27,8 @@ template <typename Signed> struct Unsigned {};
 
 /** @brief Metafunction for char to unsigned char type conversions. **/
 template <> struct Unsigned<char> { typedef unsigned char type; /**< The unsigned equivalent. **/ };
+/** @brief Metafunction for signed char to unsigned char type conversions. **/
+template <> struct Unsigned<signed char> { typedef unsigned char type; /**< The unsigned equivalent. **/ };
 /** @brief Metafunction for short to unsigned short type conversions. **/
 template <> struct Unsigned<short> { typedef unsigned short type; /**< The unsigned equivalent. **/};
 /** @brief Metafunction for int to unsigned int type conversions. **/
diff --git a/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp b/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
index 699960a..80e276e 100644
--- a/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
+++ b/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
@@ -49,6 +49,14 @@ class is_integral : public False {};
 template <>
 class is_integral<char> : public True {};
 
+/**
+ * @brief Integral trait for signed char types.
+ *
+ * Integral trait for signed char types.
+ */
+template <>
+class is_integral<signed char> : public True {};
+
 /**
  * @brief Integral trait for unsigned char types.
  *
@@ -185,6 +193,14 @@ class is_signed : public False {};
 template <>
 class is_signed<char> : public True {};
 
+/**
+ * @brief Signed trait for explicitly signed char types.
+ *
+ * Signed trait for explicitly signed char types.
+ */
+template <>
+class is_signed<signed char> : public True {};
+
 /**
  * @brief Unsigned trait for signed short types.
  */
-- 
2.43.0


From 2fbf8eb573c526a925bc51f334953adc44de6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:04 +0000
Subject: [PATCH 29/51] fix: the container concepts require the documented
 value_type

---
 ecl_concepts/include/ecl/concepts/containers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_concepts/include/ecl/concepts/containers.hpp b/ecl_concepts/include/ecl/concepts/containers.hpp
index deefc0a..3b5864c 100644
--- a/ecl_concepts/include/ecl/concepts/containers.hpp
+++ b/ecl_concepts/include/ecl/concepts/containers.hpp
@@ -61,6 +61,7 @@ private:
 	// problem if there is no default constructor).
 	Implementation container;
 	typename Implementation::iterator iter;
+	typedef typename Implementation::value_type value_type;
 };
 /**
  * @brief Defines validating functionality for the dynamic @ref containersConcept "container concept".
@@ -95,6 +96,7 @@ private:
 	// problem if there is no default constructor).
 	Implementation container;
 	typename Implementation::iterator iter;
+	typedef typename Implementation::value_type value_type;
 };
 
 /**
-- 
2.43.0


From 6889d3d3b7a67b96800c5f158f7abd33499e2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:22 +0000
Subject: [PATCH 30/51] fix: text streams read the whole range of each number
 type, report read errors and keep the last digit

---
 .../text_streams/input_text_stream.hpp        | 131 +++++++++---------
 1 file changed, 64 insertions(+), 67 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..fdbd913 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -204,8 +204,11 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 	    s.clear();
 	    do {
 	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
+	        long n = this->io_device.read(c);
+	        if ( n < 0 ) {
 	        	this->error = ReadError;
+	        	return *this;
+	        } else if ( n == 0 ) { // the string ends where the input ends
 	        	break;
 			}
 	    } while ( ( c != ' ' ) && ( c != '\n' ) );
@@ -520,12 +523,11 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
+    bool has_digits = false;
+    bool out_of_range = false;
+    Number number = 0;
 
-    i = 0;
-    int j = 0;
-    while ( j < 25 ) {
+    for (;;) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -533,30 +535,30 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 		} else if ( n == 0 ) {
 			break; // nothing more to read.
 		}
+    	int digit;
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
-        ++j;
+        has_digits = true;
+        if ( number > ecl::numeric_limits<Number>::maximum/16 ) {
+            out_of_range = true;
+        } else {
+            number = 16*number + digit;
+        }
     }
-    if ( j == 0 ) {
+    if ( !has_digits ) {
     	this->error = ReadError;
     	return false;
 	}
-
-    short number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+    	return false;
     }
     i = number;
     return true;
@@ -571,17 +573,19 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
+    static const Number maximum = ecl::numeric_limits<Number>::maximum;
+    static const Number minimum = ecl::numeric_limits<Number>::minimum;
     char c = ' ';
-    Number sign_multiplier = 1;
-    Number number;
+    bool negative = false;
+    bool has_digits = false;
+    bool out_of_range = false;
+    Number number = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) { // Negative
 		if ( std::numeric_limits<Number>::min() != 0 ) {
-            sign_multiplier = -1;
+            negative = true;
             if ( this->io_device.read(c) < 1 ) {
             	this->error = ReadError;
             	return false;
@@ -603,7 +607,7 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 		} else if ( c == 'x' ) {
             return parseHexInteger(i);
         } else {
-        	// its a regular integer, just continue
+        	has_digits = true; // its a regular integer, just continue
         }
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
@@ -612,35 +616,39 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
-    int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        int digit = c - '0';
+        has_digits = true;
+        if ( negative ) {
+        	if ( ( number < minimum/10 ) || ( ( number == minimum/10 ) && ( digit > -(minimum%10) ) ) ) {
+        		out_of_range = true;
+        	} else {
+        		number = 10*number - digit;
+        	}
+        } else {
+        	if ( ( number > maximum/10 ) || ( ( number == maximum/10 ) && ( digit > maximum%10 ) ) ) {
+        		out_of_range = true;
+        	} else {
+        		number = 10*number + digit;
+        	}
+        }
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
 			return false;
 		} else if ( n == 0 ) {
 			break;
-		} else { // n > 1
-        }
+		}
     }
-    if ( j == 0 ) {
+    if ( !has_digits ) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number < ceiling )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+    	return false;
     }
-    i = sign_multiplier*number;
+    i = number;
 
     return true;
 }
@@ -648,11 +656,8 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
-    int integral_length = 0;
-    int decimal_length = 0;
+    bool has_digits = false;
     Number sign_multiplier = 1;
     Number number;
 
@@ -668,45 +673,37 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        has_digits = true;
+        number = 10*number + (c - '0');
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
 		} else if ( n == 0 ) {
 			break;
-		} else { // n > 1
-			integral_length++;
-        }
-    }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
+		}
     }
 
     if ( c == '.' ) {
-        float frac_multiplier = 1;
+        Number frac_multiplier = 1;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
+        while ( ( c >= '0' ) && ( c <= '9') ) {
+            has_digits = true;
+            frac_multiplier /= 10;
+            number = number + frac_multiplier*(c - '0');
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
     		} else if ( n == 0 ) {
     			break;
-    		} else { // n > 1
-                decimal_length++;
-            }
-        }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
+    		}
         }
     }
 
-    if ( (integral_length+decimal_length) == 0 ) {
+    if ( !has_digits ) {
     	this->error = ConversionError;
     	return false;
 	}
-- 
2.43.0


From 6cc35c273cfdf0b97eb2b910f7325d8924217d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:32 +0000
Subject: [PATCH 31/51] fix: text streams report failed writes and do not cut
 off large numbers

---
 .../streams/text_streams/output_text_stream.hpp   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..099715c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(320) // character buffer size, the largest double takes 317 characters
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
@@ -141,6 +141,13 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          void flush();
 
     private:
+        /**
+         * Sends text to the device, the error status tells if all of it was written.
+         **/
+        void write(const char *s, const unsigned long &n) {
+        	this->error = ( ( n == 0 ) || ( this->io_device.write(s,n) == static_cast<long>(n) ) ) ? NoError : WriteError;
+        }
+
         ecl::Converter<char*> toCharString;
 };
 
@@ -158,7 +165,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char& c ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.write(c);
+	this->error = ( this->io_device.write(c) == 1 ) ? NoError : WriteError;
     return *this;
 }
 /**
@@ -172,7 +179,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const char *s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(s,strlen(s));
+    write(s,strlen(s));
     return *this;
 }
 
@@ -187,7 +194,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const cha
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const std::string &s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(&s[0],s.size());
+    write(s.c_str(),s.size());
     return *this;
 }
 /**
-- 
2.43.0


From 7f506d286f1090e366f708d247c2c2042dddee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:32 +0000
Subject: [PATCH 32/51] fix: a socket server stream reports a failed open where
 exceptions are disabled

---
 ecl_streams/include/ecl/streams/socket_streams.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/socket_streams.hpp b/ecl_streams/include/ecl/streams/socket_streams.hpp
index 012e6b0..01ab7d9 100644
--- a/ecl_streams/include/ecl/streams/socket_streams.hpp
+++ b/ecl_streams/include/ecl/streams/socket_streams.hpp
@@ -110,10 +110,12 @@ public:
 	 * @exception StandardException : throws if the connection failed to open.
 	 */
 	SocketServerStream(const unsigned int &port_number) {
-		try {
-			this->device().open(port_number);
-		} catch(StandardException &e) {
-			throw StandardException(LOC,e);
+		ecl_try {
+			if ( !this->device().open(port_number) ) {
+				error = this->device().error();
+			}
+		} ecl_catch(StandardException &e) {
+			ecl_throw(StandardException(LOC,e));
 		}
 	}
 
-- 
2.43.0


From 373c9565efc2a40f0c356589ef16f92ff9fa4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:32 +0000
Subject: [PATCH 33/51] fix: log streams initialise their settings and replace
 the header of an enabled mode

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 ecl_streams/src/lib/log_stream.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From f6d238ca7352615a53c4426f86acbe3a459e789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:18 +0000
Subject: [PATCH 34/51] fix: the frequency monitor uses the clock it was asked
 to use everywhere

---
 ecl_time/src/lib/frequency.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..e46bede 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
-, last_anyalsed()
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
+, last_anyalsed(ecl::TimeStamp())
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 88f682ba0f268af2e9d4dce4f70677f0881ef36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:32 +0000
Subject: [PATCH 35/51] fix: an empty word is not the value of an argument of a
 type other than string

---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From a109cd1eabeca606fa8deb4f77a3cfa22b2441bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:32 +0000
Subject: [PATCH 36/51] fix: a repeatable argument is refused when an
 alternative to it was already given

---
 ecl_command_line/include/ecl/command_line/xor_handler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/xor_handler.hpp b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
index 8ab3e0a..95b811e 100644
--- a/ecl_command_line/include/ecl/command_line/xor_handler.hpp
+++ b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
@@ -101,6 +101,14 @@ inline int XorHandler::check( const Arg* a )
 		                                   _orList[i].end(), a );
 		if ( ait != _orList[i].end() )
 		{
+			// none of the others may have been given already
+			for ( ArgVectorIterator it = _orList[i].begin();
+				  it != _orList[i].end();
+				  it++ )
+				if ( a != (*it) && (*it)->isSet() )
+					throw( CmdLineParseException("Mutually exclusive argument already set!",
+					                             (*it)->toString()) );
+
 			// go through and set each arg that is not a
 			for ( ArgVectorIterator it = _orList[i].begin();
 				  it != _orList[i].end();
-- 
2.43.0


From 503b6972052f0c4c42e0bad73ec8f6f26c6047af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:32 +0000
Subject: [PATCH 37/51] fix: the default output object of a command line leaked
 when another one was set

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..6ed0c76 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -441,6 +441,12 @@ inline CmdLineOutput* CmdLine::getOutput()
 
 inline void CmdLine::setOutput(CmdLineOutput* co)
 {
+	if ( co == _output )
+		return;
+
+	if ( !_userSetOutput )
+		delete _output;
+
 	_userSetOutput = true;
 	_output = co;
 }
-- 
2.43.0


From b195ce969132fb505fb5b489478929834f1acc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:36 +0000
Subject: [PATCH 38/51] fix: a line intersection that succeeds clears the
 failure flag of an earlier one

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..6909a01 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -161,6 +161,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
 	} else {
+		last_operation_failed = false;
 		point.x((a_0 - a_1)/(b_1 - b_0));
 		point.y(f(point.x()));
 	}
-- 
2.43.0


From 7233971d709cf0e75fea5bcb97cc9b693a15579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:36 +0000
Subject: [PATCH 39/51] fix: a tension spline through two points does not write
 past its arrays

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..74d5a7f 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -79,8 +79,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // two points only make a single segment, there is nothing to solve for
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From e296abe3e921dbcd53221745242f8d9a5c289d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:51 +0000
Subject: [PATCH 40/51] fix: a cubic with a single real root at its inflection
 point has no roots that are not a number

---
 ecl_geometry/src/lib/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 6909a01..987c50f 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -122,7 +122,7 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
-	} else if ( q == 0 ) {
+	} else if ( ( q == 0 ) && ( p < 0 ) ) { // for p > 0 there is only the one, it is found with the cube roots below
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
 		intercepts.resize(3);
-- 
2.43.0


From 695627021e54469ae51c426776d9a265c043abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:10 +0000
Subject: [PATCH 41/51] fix: the roots of a cubic without a cubic term are
 those of the quadratic

---
 ecl_geometry/src/lib/polynomial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 987c50f..ae0ddc4 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) { // actually a quadratic
+		QuadraticPolynomial f;
+		f.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(f);
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
-- 
2.43.0


From 6ca1148d6fdaeb3aa37e802607eb100e8f5ccc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:07 +0000
Subject: [PATCH 42/51] fix: the translation and rotation matrix of a Pose2D
 were references to temporaries

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..f662e4c 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From fb973b26db6af006b4023a378e18cb94f1131c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:07 +0000
Subject: [PATCH 43/51] fix: a Pose2D can be made without arguments and
 multiplied

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index f662e4c..6335096 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
-- 
2.43.0


From f230d567d1bbc78f7db33c965367be2a3ca1b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:07 +0000
Subject: [PATCH 44/51] fix: a pose can be extended by itself

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 6335096..3ac428f 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -80,12 +80,7 @@ void extend_pose(
   typename enable_if<ecl::is_float<Float> >::type* dummy = 0)
 {
   (void) dummy;
-  Float c = std::cos(pose[2]);
-  Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  pose = concatenate_poses(pose, extending_pose); // computed first, a pose may extend itself
 }
 
 /*****************************************************************************
-- 
2.43.0


From dfd6fec298216096d3c4ca904b34bf7ece8ce3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 45/51] fix: adding to the end of a trajectory that is not
 empty overwrote it

---
 ecl_geometry/src/lib/odometry_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..2dcb86a 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,10 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int additional_size = size(addition); // counted first, the addition may be the target itself
+  target.conservativeResize(Eigen::NoChange, old_size + additional_size);
+  target.rightCols(additional_size) = addition.leftCols(additional_size);
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +122,10 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int additional_size = size(addition); // counted first, the addition may be the target itself
+  target.conservativeResize(Eigen::NoChange, old_size + additional_size);
+  target.rightCols(additional_size) = addition.leftCols(additional_size);
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From 10208f369018902956a5070fe6037f9a06bc611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:37 +0000
Subject: [PATCH 46/51] fix: approximate comparison of integers by value,
 whatever their signedness and the other's type

---
 ecl_math/include/ecl/math/fuzzy.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecl_math/include/ecl/math/fuzzy.hpp b/ecl_math/include/ecl/math/fuzzy.hpp
index 0cdbd32..3a2efe5 100644
--- a/ecl_math/include/ecl/math/fuzzy.hpp
+++ b/ecl_math/include/ecl/math/fuzzy.hpp
@@ -84,7 +84,7 @@ struct scalar_fuzzy_default_impl<Scalar, true> {
 	static inline bool isApprox(const Scalar& x, const OtherScalar& y, const Precision& prec) {
 		// this will trigger if default argument is used (dummy precision for integers == 0)
 		if ( ecl::numeric_limits<OtherScalar>::is_integer ) {
-			return x == y;
+			return ( ( x < 0 ) == ( y < 0 ) ) && ( x == y ); // signs first, a direct comparison of mixed signedness would wrap around
 		} else {
 			// only get here if its not complex, so OtherScalar has to be a floating type
 			typename ecl::numeric_limits<OtherScalar>::Precision precision;
@@ -97,8 +97,11 @@ struct scalar_fuzzy_default_impl<Scalar, true> {
 		}
 	}
 	template<typename OtherScalar>
-	static inline bool isApproxOrLessThan(const Scalar& x, const OtherScalar& y, const Precision&) {
-		return x <= y;
+	static inline bool isApproxOrLessThan(const Scalar& x, const OtherScalar& y, const Precision& prec) {
+		if ( ecl::numeric_limits<OtherScalar>::is_integer && ( ( x < 0 ) != ( y < 0 ) ) ) {
+			return x < 0; // mixed signedness, a direct comparison would wrap around the negative one
+		}
+		return x <= y || isApprox(x, y, prec);
 	}
 };
 
-- 
2.43.0


From 858260f10440824d809e96281ba1ca735ab3120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:54 +0000
Subject: [PATCH 47/51] fix: a trajectory that has not been interpolated lasts
 no time, its duration was not initialised

---
 ecl_manipulators/include/ecl/manipulators/trajectory.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index a1814aa..e0f31df 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -91,7 +91,8 @@ class Trajectory<JointAngles> {
          * @param name_identifier : string identifier for the trajectory name.
          */
         Trajectory(const char* name_identifier = "") :
-            name(name_identifier)
+            name(name_identifier),
+            trajectory_duration(0.0)
         {}
         /**
          * @brief Configures the joint dimension, and also (optionally) the trajectory name.
@@ -102,7 +103,8 @@ class Trajectory<JointAngles> {
         Trajectory(const unsigned int& dimension, const char* name_identifier = "") :
             name(name_identifier),
             spline_functions(dimension),
-            max_accelerations(Array<double>::Constant(dimension,0.0))
+            max_accelerations(Array<double>::Constant(dimension,0.0)),
+            trajectory_duration(0.0)
         {}
 
         /**
-- 
2.43.0


From a4dcc7d488e25ae3695284e19b6f16732463430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:08 +0000
Subject: [PATCH 48/51] fix: copies of a trajectory have spline functions of
 their own, they were deleted by each copy

---
 .../include/ecl/geometry/spline_function.hpp  |  7 ++++
 .../include/ecl/manipulators/trajectory.hpp   | 39 +++++++++++++++++++
 ecl_manipulators/src/lib/trajectory.cpp       | 12 ++++++
 3 files changed, 58 insertions(+)

diff --git a/ecl_geometry/include/ecl/geometry/spline_function.hpp b/ecl_geometry/include/ecl/geometry/spline_function.hpp
index 14ff6ec..b7ad49b 100644
--- a/ecl_geometry/include/ecl/geometry/spline_function.hpp
+++ b/ecl_geometry/include/ecl/geometry/spline_function.hpp
@@ -57,6 +57,11 @@ class ECL_PUBLIC GenericSplineFunction {
          * @return double : the value of the 2nd derivative at x.
          */
         virtual double dderivative(const double &x) const = 0;
+        /**
+         * @brief Make a copy of this spline function on the heap.
+         * @return GenericSplineFunction* : the copy, it is the caller's to delete.
+         */
+        virtual GenericSplineFunction* clone() const = 0;
 
         /**
          * @brief Get access to the domain for this spline function.
@@ -134,6 +139,8 @@ class ECL_PUBLIC SplineFunction : public GenericSplineFunction {
             return function.dderivative(x);
         }
 
+        virtual GenericSplineFunction* clone() const { return new SplineFunction<Function>(*this); }
+
     private:
         Function function;
 };
diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index e0f31df..d19f7ea 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -107,6 +107,38 @@ class Trajectory<JointAngles> {
             trajectory_duration(0.0)
         {}
 
+        /**
+         * @brief Copy constructor, the copy has spline functions of its own.
+         *
+         * @param other : the trajectory to copy.
+         */
+        Trajectory(const Trajectory<JointAngles> &other) :
+            name(other.name),
+            waypoints(other.waypoints),
+            spline_functions(other.dimension()),
+            max_accelerations(other.max_accelerations),
+            trajectory_duration(other.trajectory_duration)
+        {
+            cloneSplines(other);
+        }
+        /**
+         * @brief Assignment, the copy has spline functions of its own.
+         *
+         * @param other : the trajectory to copy.
+         * @return Trajectory& : handle to this trajectory.
+         */
+        Trajectory<JointAngles>& operator=(const Trajectory<JointAngles> &other) {
+            if ( this != &other ) {
+                redimension(other.dimension());
+                name = other.name;
+                waypoints = other.waypoints;
+                max_accelerations = other.max_accelerations;
+                trajectory_duration = other.trajectory_duration;
+                cloneSplines(other);
+            }
+            return *this;
+        }
+
         /**
          * @brief Default destructor.
          *
@@ -342,6 +374,13 @@ class Trajectory<JointAngles> {
         Array< double> max_accelerations;
         double trajectory_duration;
 
+        /**
+         * @brief Copy the spline functions of another trajectory of the same dimension.
+         *
+         * @param other : the trajectory to copy, this one may not have any spline functions.
+         */
+        void cloneSplines(const Trajectory<JointAngles> &other);
+
         /**
          * @brief Clean up the memory allocated to the spline functions.
          *
diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..5bc6a1a 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -511,6 +511,18 @@ void Trajectory<JointAngles>::clearSplines()
   }
 }
 
+void Trajectory<JointAngles>::cloneSplines(const Trajectory<JointAngles> &other)
+{
+  for (unsigned int joint = 0; joint < dimension(); ++joint)
+  {
+    for (unsigned int function = 0; function < other.spline_functions[joint].size(); ++function)
+    {
+      const GenericSplineFunction *spline_function = other.spline_functions[joint][function];
+      spline_functions[joint].push_back((spline_function == NULL) ? NULL : spline_function->clone());
+    }
+  }
+}
+
 void Trajectory<JointAngles>::updateDuration()
 {
   double total_time = 0.0;
-- 
2.43.0


From 1816f33ecd4cc8a574b98a2a8a852ba269f3c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:56 +0000
Subject: [PATCH 49/51] fix: a double precision pose keeps the precision of its
 coordinates

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 3ac428f..54ea171 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -124,7 +124,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
-- 
2.43.0


From 3c1058472bcc5eb65a99220c6a988aa9524a1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:29 +0000
Subject: [PATCH 50/51] fix: a switch of an exclusive group counts when it is
 combined with others

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 6ed0c76..9f7a9a4 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -381,6 +381,7 @@ inline void CmdLine::parse(int argc, char** argv)
   	for (int i = 0; static_cast<unsigned int>(i) < args.size(); i++)
 	{
 		bool matched = false;
+		std::string word = args[i];
 		for (ArgListIterator it = _argList.begin(); it != _argList.end(); it++)
         {
 			if ( (*it)->processArg( &i, args ) )
@@ -389,6 +390,12 @@ inline void CmdLine::parse(int argc, char** argv)
 				matched = true;
 				break;
 			}
+			// a switch blanks itself out of a combination, others may follow it
+			if ( args[i] != word )
+			{
+				requiredCount += _xorHandler.check( *it );
+				word = args[i];
+			}
         }
 
 		// checks to see if the argument is an empty combined switch ...
-- 
2.43.0


From f2854ac693db16bba9b7c607f8bd8eef4a6eb8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:39 +0000
Subject: [PATCH 51/51] fix: a repeatable switch of an exclusive group may be
 repeated

---
 .../ecl/command_line/multi_switch_arg.hpp       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 327a291..1f91c24 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -35,6 +35,8 @@ class MultiSwitchArg : public SwitchArg
 		 */
 		int _value;
 
+		bool _allowMore;
+
 
 	public:
 
@@ -104,6 +106,8 @@ class MultiSwitchArg : public SwitchArg
 		 * Returns the longID for this Arg.
 		 */
 		std::string longID(const std::string& val) const;
+
+		virtual bool allowMore();
 };
 
 //////////////////////////////////////////////////////////////////////
@@ -115,7 +119,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 { }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
@@ -125,13 +130,21 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 {
 	parser.add( this );
 }
 
 inline int MultiSwitchArg::getValue() { return _value; }
 
+inline bool MultiSwitchArg::allowMore()
+{
+	bool am = _allowMore;
+	_allowMore = true;
+	return am;
+}
+
 inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 {
 	if ( _ignoreable && Arg::ignoreRest() )
-- 
2.43.0

