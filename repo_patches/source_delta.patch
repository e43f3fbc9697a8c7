From 0132321707818c607edadff81b3cc0fc3f677c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 01/63] fix: cloning or assigning a vector from itself or from
 its own segment keeps the content

---
 Vector.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..842a650 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) return;
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -195,14 +196,25 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		// The other vector may be this one or an alias of it, so copy before releasing our storage.
+		VectorDataType oldData = mData;
+		const T* otherStart = other.mStart;
+		size_t elements = other.size();
+		this->vInit(elements);
+		memcpy(mData,otherStart,elements*sizeof(T));
+		delete[] oldData;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		// Either operand may be this vector or an alias of it, so copy before releasing our storage.
+		VectorDataType oldData = mData;
+		const T* start1 = other1.mStart;
+		const T* start2 = other2.mStart;
+		size_t elements1 = other1.size(), elements2 = other2.size();
+		this->vInit(elements1+elements2);
+		memcpy(this->mStart, start1, elements1*sizeof(T));
+		memcpy(this->mStart+elements1, start2, elements2*sizeof(T));
+		delete[] oldData;
 	}
 
 	protected:
-- 
2.43.0


From 3744d28779c0ab664e8d4977ced6de9c3fd120ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 02/63] fix: F16 assignment returns the assigned value, not its
 raw bits as an integer

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 374c91a..2d98c63 100644
--- a/F16.h
+++ b/F16.h
@@ -82,7 +82,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From b9d21cab3c85267cb00f1aff23dd7e0fbc5485ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 03/63] fix: Timeval::future normalises a sum of exactly one
 second of microseconds

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From d1f5060bb1342cf628a3d98ccf366278a231a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 04/63] fix: Timeval::delta does not overflow for times more
 than 24 days apart

---
 Timeval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..e328792 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,9 +72,9 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
-	int32_t deltaS = other.sec() - sec();
-	int32_t deltaUs = other.usec() - usec();
+	// 2^31 milliseconds is less than 25 days, so this needs more than 32 bits.
+	long deltaS = (long)other.sec() - (long)sec();
+	long deltaUs = (long)other.usec() - (long)usec();
 	return 1000*deltaS + deltaUs/1000;
 }
 	
-- 
2.43.0


From d0bff86754a4ef009ba62aa32f05b47f5c90398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 05/63] fix: Timeval::addMinutes does not wrap at 2^32 seconds

---
 Timeval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.h b/Timeval.h
index 5a5c609..59578f4 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -93,7 +93,7 @@ class Timeval {
 	bool passed() const;
 
 	/** Add a given number of minutes to the time. */
-	void addMinutes(unsigned minutes) { mTimeval.tv_sec += minutes*60; }
+	void addMinutes(unsigned minutes) { mTimeval.tv_sec += (time_t)minutes*60; }
 
         /** Convert a time_t into a formatted string, using the ISO
          *  YYYY-MM-DDTHH:MM:SS[Z] format.  If isLocal is true, use localtime,
-- 
2.43.0


From afd885953586dbf77d605784b419098475b3ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 06/63] fix: URLEncode emits the right hexadecimal digits and
 escapes NUL

---
 URLEncode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..ef6c8b9 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,12 +32,12 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
 		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		if (isalnum((unsigned char)ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From d8b33a582e0f2a62ddd767fb82c34669d96897f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 07/63] fix: format does not lose the last character of a 199
 character result

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From dbb6bc8fb40cb6b0ca1a8df71759ee7e968fc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 08/63] fix: osprintf does not cut text that fits its buffer

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 952283b..e5e0674 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -121,7 +121,7 @@ ostream &osprintf(std::ostream &os, const char *fmt, ...)
 	va_start(ap,fmt);
 	int n = vsnprintf(buf,300,fmt,ap);
 	va_end(ap);
-	if (n >= (300-4)) { strcpy(&buf[(300-4)],"..."); }
+	if (n >= 300) { strcpy(&buf[(300-4)],"..."); }
 	os << buf;
 	return os;
 }
-- 
2.43.0


From 51428f1e7339e53249a8bea04dddd345f1865604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 09/63] fix: myscanf does not assign an unset buffer when
 nothing was scanned

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index e5e0674..c5b5077 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n >= 1) { s1->assign(a1); }
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From fadc920be37da1bb26cebeef4e9609b9ba367bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 10/63] fix: replaceAll terminates for an empty search string
 and recognises the end of the search

---
 Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index c5b5077..195f213 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -477,7 +477,8 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+ 	size_t index1 = 0;
+	if (search.empty()) return output;
 
 	while (index1 < output.size()) {
 	  try {
-- 
2.43.0


From ec67559f715dad5baa8a8357a98e1b126c935e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 11/63] fix: encoding names are matched case-insensitively as
 intended

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 195f213..0187f71 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -29,8 +29,8 @@ namespace Utils {
 using namespace std;
 
 struct stringCaseInsensitive : public string {
-	bool operator==(string &other) { return 0==strcasecmp(this->c_str(),other.c_str()); }
-	bool operator!=(string &other) { return 0!=strcasecmp(this->c_str(),other.c_str()); }
+	bool operator==(const char *other) const { return 0==strcasecmp(this->c_str(),other); }
+	bool operator!=(const char *other) const { return 0!=strcasecmp(this->c_str(),other); }
 	stringCaseInsensitive(string &other) : string(other) {}
 	stringCaseInsensitive(const char* &other) : string(other) {}
 };
-- 
2.43.0


From 041f9d04012f80087b95ff34aa1798e78f0bedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 12/63] fix: a connected queue hands out and checks the lock it
 shares

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..2968ead 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 75c380c54d475bce4eb8ba4f28245a241e410449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 13/63] fix: iqWaitForEither returns when its timeout has
 passed

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 2968ead..010110f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 541e819617c163ae916f698f6cfa200e557151ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 14/63] fix: a queue falling below several low water marks
 wakes every waiter

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 010110f..1a219cb 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 3a5fe807cd19fbad1882879e9d017267362fde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 15/63] fix: InterthreadMap size compiles and holds the lock

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 1a219cb..d402be2 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From a7f9aa3a0652fa80c9b53972c7ae6f70da120069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 16/63] fix: InterthreadMap deletes the values it still holds
 when destroyed

---
 Interthread.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index d402be2..5219e94 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,14 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+
+	public:
+	// The base class destructor can no longer call our vdelete.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		for (typename InterthreadMap1<K,D*>::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) { delete iter->second; }
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From bd22f64bc0e582142e6196c1de0d3abaddc15ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 17/63] fix: a timed lock that fails for any reason is not
 reported as acquired

---
 Threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..de56c98 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -125,7 +125,7 @@ bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
-- 
2.43.0


From 993453386a51a88a6588b1851d3948949f7c1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 18/63] fix: a timed lock that succeeds is counted, as its
 unlock is

---
 Threads.cpp | 25 ++++++++++++++++++-------
 Threads.h   |  3 ++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index de56c98..3d28ca5 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -120,12 +120,23 @@ bool Mutex::trylock(const char *file, unsigned line)
 	}
 }
 
+// Our thread just acquired the lock: count it.
+void Mutex::_noteLocked(const char *file, unsigned line)
+{
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
+	}
+	mLockCnt++;
+}
+
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+bool Mutex::timedlock(int msecs, const char *file, unsigned line) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
+	if (0 != pthread_mutex_timedlock(&mMutex, &timeout)) { return false; }
+	_noteLocked(file,line);
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +173,10 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (timedlock(1000,file,line)) {
+			LOCKLOG(DEBUG,"lock by %s",mutext().c_str());
+			return;
+		} else {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
@@ -172,10 +186,7 @@ void Mutex::lock(const char *file, unsigned line)
 		//LOCKLOG(DEBUG,"unchecked lock");
 		_lock();
 	}
-	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
-		mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
-	}
-	mLockCnt++;
+	_noteLocked(file,line);
 	if (file) { LOCKLOG(DEBUG,"lock by %s",mutext().c_str()); }
 	//else { LOCKLOG(DEBUG,"lock no file"); }
 }
diff --git a/Threads.h b/Threads.h
index 6e004ba..ae24857 100644
--- a/Threads.h
+++ b/Threads.h
@@ -84,6 +84,7 @@ class Mutex {
 	static const int maxLocks = 5;		// Just the maximum number of recursive locks we report during debugging, not the max possible.
 	const char *mLockerFile[maxLocks];
 	unsigned mLockerLine[maxLocks];
+	void _noteLocked(const char *file, unsigned line);
 	const char *lockerFile() { int i = mLockCnt-1; return (i >= 0 && i < maxLocks) ? mLockerFile[i] : NULL; }
 	//unused: bool anyDebugging() { for (int i = 0; i < maxLocks; i++) { if (mLockerFile[i]) return true; return false; } }
 
@@ -103,7 +104,7 @@ class Mutex {
 	std::string mutext() const;
 
 	// Returns true if the lock was acquired, or false if it timed out.
-	bool timedlock(int msecs);
+	bool timedlock(int msecs, const char *file=0, unsigned line=0);
 
 	void unlock();
 
-- 
2.43.0


From 677faf448007cec8190e9ee45c0b0a5cebd6d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 19/63] fix: ScopedLockMultiple does not wait for a mutex while
 holding those held on entry

---
 Threads.cpp | 12 +++++++++---
 Threads.h   |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index 3d28ca5..910b849 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -226,6 +226,12 @@ void ScopedLockMultiple::_lock(int which) {
 	mA[which]->lock(_file,_line);
 	state[which] = true;
 }
+// Never wait for one mutex while holding another, not even one the caller held on entry.
+void ScopedLockMultiple::_lockAlone(int which) {
+	if (_trylock(which)) return;
+	for (int i = 0; i <= 2; i++) { _unlock(i); }
+	_lock(which);
+}
 bool ScopedLockMultiple::_trylock(int which) {
 	if (state[which]) return true;
 	state[which] = mA[which]->trylock(_file,_line);
@@ -257,17 +263,17 @@ void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
 	for (int n=0; true; n++) {
 		// Attempt to lock in order 0,1,2.
-		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
+		_lockAlone(0); 					// Wait on 0, unless it was locked by us on entry.
 		if (_trylock(1) && _trylock(2)) return;			// Then try to acquire 1 and 2
 		_unlock(1);										// If failure, release all.
 		_unlock(0);
 		// Attempt to lock in order 1,0,2.
-		_lock(1);
+		_lockAlone(1);
 		if (_trylock(0) && _trylock(2)) return;
 		_unlock(0);
 		_unlock(1);
 		// Attempt to lock in order 2,1,0.
-		_lock(2);
+		_lockAlone(2);
 		if (_trylock(0) && _trylock(1)) return;
 		_unlock(0);
 		_unlock(2);	
diff --git a/Threads.h b/Threads.h
index ae24857..3b4ec1b 100644
--- a/Threads.h
+++ b/Threads.h
@@ -184,6 +184,7 @@ class ScopedLockMultiple {
 	const char *_file; unsigned _line;
 
 	void _lock(int which);
+	void _lockAlone(int which);
 	bool _trylock(int which);
 	void _unlock(int which);
 	void _saveState();
-- 
2.43.0


From 0ebc08af2b12876c0b0396b87e67c197ccbb7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 20/63] fix: PointerFIFO frees its nodes when destroyed

---
 LinkedLists.cpp | 5 +++++
 LinkedLists.h   | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/LinkedLists.cpp b/LinkedLists.cpp
index 94e2533..5c29691 100644
--- a/LinkedLists.cpp
+++ b/LinkedLists.cpp
@@ -29,6 +29,11 @@
 
 #include "LinkedLists.h"
 
+PointerFIFO::~PointerFIFO()
+{
+	while (mHead) get();
+	while (mFreeList) delete allocate();
+}
 
 void PointerFIFO::push_front(void* val)	// by pat
 {
diff --git a/LinkedLists.h b/LinkedLists.h
index 0e28c63..4aaba08 100644
--- a/LinkedLists.h
+++ b/LinkedLists.h
@@ -72,6 +72,9 @@ class PointerFIFO {
 		mSize(0)
 	{}
 
+	/** Free the nodes; the items are not ours. */
+	~PointerFIFO();
+
 	unsigned size() const { return mSize; }
 	unsigned totalSize() const { return 0; }	// Not used in this version.
 
@@ -98,6 +101,10 @@ class PointerFIFO {
 	/** Release a node to the free pool after removal from the FIFO. */
 	void release(ListNode* wNode);
 
+	/** Not copyable: the nodes have one owner. */
+	PointerFIFO(const PointerFIFO&);
+	void operator=(const PointerFIFO&);
+
 };
 
 // This is the default type for SingleLinkList Node element;
-- 
2.43.0


From 30f9099b3b8b65035352b3ff6408402f3d78933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:06 +0000
Subject: [PATCH 21/63] fix: a thread waiting for a Signal does not count as
 holding the mutex

---
 Threads.cpp | 13 ++++++++++++-
 Threads.h   |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index 910b849..49cfda5 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -129,6 +129,17 @@ void Mutex::_noteLocked(const char *file, unsigned line)
 	mLockCnt++;
 }
 
+// Waiting for a Signal releases the lock, so our lock does not count meanwhile.
+void Mutex::_condwait(pthread_cond_t *cond, const struct timespec *until)
+{
+	const char *file = lockerFile();
+	unsigned line = file ? mLockerLine[mLockCnt-1] : 0;
+	mLockCnt--;
+	if (until) pthread_cond_timedwait(cond, &mMutex, until);
+	else pthread_cond_wait(cond, &mMutex);
+	_noteLocked(file,line);
+}
+
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
 bool Mutex::timedlock(int msecs, const char *file, unsigned line) // Wait this long in milli-seconds.
 {
@@ -290,7 +301,7 @@ void Signal::wait(Mutex& wMutex, long timeout) const
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
 	Timeval then(timeout);
 	struct timespec waitTime = then.timespec();
-	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
+	wMutex._condwait(&mSignal,&waitTime);
 }
 
 struct wrapArgs
diff --git a/Threads.h b/Threads.h
index 3b4ec1b..006a4fb 100644
--- a/Threads.h
+++ b/Threads.h
@@ -85,6 +85,7 @@ class Mutex {
 	const char *mLockerFile[maxLocks];
 	unsigned mLockerLine[maxLocks];
 	void _noteLocked(const char *file, unsigned line);
+	void _condwait(pthread_cond_t *cond, const struct timespec *until);	// Used by Signal.
 	const char *lockerFile() { int i = mLockCnt-1; return (i >= 0 && i < maxLocks) ? mLockerFile[i] : NULL; }
 	//unused: bool anyDebugging() { for (int i = 0; i < maxLocks; i++) { if (mLockerFile[i]) return true; return false; } }
 
@@ -251,7 +252,7 @@ class Signal {
 		Under Linux, spurious returns are possible.
 	*/
 	void wait(Mutex& wMutex) const
-		{ pthread_cond_wait(&mSignal,&wMutex.mMutex); }
+		{ wMutex._condwait(&mSignal,NULL); }
 
 	void signal() { pthread_cond_signal(&mSignal); }
 
-- 
2.43.0


From a0d01e699801a318cae350129cea86f283eb64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:33 +0000
Subject: [PATCH 22/63] fix: the reference count is read under its mutex

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..ec5f1dc 100644
--- a/Utils.h
+++ b/Utils.h
@@ -215,7 +215,7 @@ class RefCntBase {
 	public:
 	virtual ~RefCntBase();
 	RefCntBase() : mRefCnt(0) {}
-	int getRefCnt() const { return mRefCnt; }
+	int getRefCnt() const { ScopedLock lock(mRefMutex); return mRefCnt; }
 };
 
 // This is basically the same as a C++11 shared_ptr, but we cannot use C++ 11 yet.
-- 
2.43.0


From 929f2ffdb55dded4660ee645cca045334e473911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:55 +0000
Subject: [PATCH 23/63] fix: no statement is finalised when preparing is not
 attempted

---
 sqlite3util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..72dfc54 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -49,6 +49,7 @@ const char* enableWAL = {
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries)
 {
         int src = SQLITE_BUSY;
+	*stmt = NULL;
 
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
-- 
2.43.0


From 766c271f76e6f2443e2941b26f6b831bbb504572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 24/63] fix: database lookups and attributes quote their values
 and do not truncate the statement

---
 sqlite3util.cpp | 54 ++++++++++++++++++++++++-------------------------
 sqlite3util.h   |  3 +++
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 72dfc54..ca8f208 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -86,18 +86,25 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+// Quote a value for use in an SQL statement.
+string sqlQuote(const string &value)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	string result = "'";
+	for (size_t i = 0; i < value.size(); i++) {
+		if (value[i] == '\'') result += '\'';
+		result += value[i];
+	}
+	return result + "'";
+}
+
+static string condition_c(const char *keyName, const char*keyValue)
+{
+	return string("WHERE ") + keyName + " == " + sqlQuote(keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return string("WHERE ") + keyName + format(" == %u",keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -109,7 +116,7 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	mQueryString = string("SELECT ") + resultColumns + " FROM " + tableName + " " + condition;
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
@@ -133,14 +140,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -167,12 +172,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = string("SELECT * FROM ") + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -186,12 +189,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -318,12 +319,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -371,9 +370,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = string("REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(") + sqlQuote(attr_name) + "," + sqlQuote(attr_value) + ")";
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..165d821 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -63,6 +63,9 @@ class sqlQuery {
 	~sqlQuery();
 };
 
+// Quote a value for use as a text literal in an SQL statement.
+std::string sqlQuote(const std::string &value);
+
 // (pat) These functions should probably not begin with "sqlite3_" since that is reserved for sqlite3 itself...
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries = 5);
 
-- 
2.43.0


From f82ea16901cc33eadfe7897c64a67ded6414a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 25/63] fix: configuration keys, values and descriptions are
 quoted in SQL statements

---
 Configuration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..5d8d67a 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -833,7 +833,7 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
+	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING==" + sqlQuote(key);
 	return sqlite3_command(mDB,cmd.c_str());
 }
 
@@ -842,7 +842,7 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE " + sqlQuote("%" + pat + "%");
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
 	// Read the result.
@@ -895,9 +895,9 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	ScopedLock lock(mLock);
 	string cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (" + sqlQuote(key) + "," + sqlQuote(value) + ",1," + sqlQuote(mSchema[key].getDescription()) + ")";
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (" + sqlQuote(key) + "," + sqlQuote(value) + ",1)";
 	}
 	
 	bool success = sqlite3_command(mDB,cmd.c_str());
-- 
2.43.0


From 1c2138556a5f1480d8d0fc8d6c9fa89e1cb741cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 26/63] fix: the generated default SQL quotes names, defaults
 and descriptions

---
 Configuration.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 5d8d67a..def9d76 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -231,9 +231,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlQuote(mp->first) << ",";
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlQuote(mp->second.getDefaultValue()) << ",";
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -244,19 +244,14 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			// optional
 			ss << "0,";
 			// description
-			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string description = mp->second.getDescription();
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				description = "1=enabled, 0=disabled - " + description;
 			}
-			ss << mp->second.getDescription();
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				description += "  Static.";
 			}
-			ss << quote;
+			ss << sqlQuote(description);
 		ss << ");" << endl;
 		mp++;
 	}
-- 
2.43.0


From fd89c187a18493a592189867d62372ad59cfc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 27/63] fix: the cross-check hook is set before opening the
 database can fail

---
 Configuration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index def9d76..2854e3c 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -95,6 +95,9 @@ float ConfigurationRecord::floatNumber() const
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
 {
+	// Init the cross checking callback to something predictable
+	mCrossCheck = NULL;
+
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
 	int rc = sqlite3_open(filename,&mDB);
@@ -180,9 +183,6 @@ ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdNam
 	// Add application specific schema
 	mSchema.insert(wSchema.begin(), wSchema.end());
 
-	// Init the cross checking callback to something predictable
-	mCrossCheck = NULL;
-
 #define DUMP_CONFIGURATION_TABLE 1
 #if DUMP_CONFIGURATION_TABLE
 	// (pat) Dump any non-default config variables...
-- 
2.43.0


From 335f49564c17a5d979ea7785131157a7647bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 28/63] fix: each configuration table ages its own cache, by a
 clock that cannot be set back

---
 Configuration.cpp | 12 ++++++++----
 Configuration.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2854e3c..7be4f4a 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <iostream>
 #include <string.h>
+#include <time.h>
 
 #ifdef DEBUG_CONFIG
 #define	debugLogEarly gLogEarly
@@ -97,6 +98,7 @@ ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdNam
 {
 	// Init the cross checking callback to something predictable
 	mCrossCheck = NULL;
+	mTimeOfLastPurge = 0;
 
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -911,12 +913,14 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
-	time_t now = time(NULL);
+	// (the time of day does not tell the age of the cache: it may be set back)
+	struct timespec now_ts;
+	clock_gettime(CLOCK_MONOTONIC,&now_ts);
+	time_t now = now_ts.tv_sec;
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	if (now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..47ec740 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -196,6 +196,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	time_t mTimeOfLastPurge;	///< when the cache was last emptied because of its age
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
-- 
2.43.0


From c28d4ca61694f6086a880ec162f6f57d8160e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 29/63] fix: validating a value for an unknown key refuses it
 and does not define the key

---
 Configuration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 7be4f4a..f1f31f2 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -358,7 +358,10 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	// An unknown key has no valid values, and asking about it must not define it.
+	ConfigurationKeyMap::const_iterator where = mSchema.find(name);
+	if (where == mSchema.end()) return false;
+	const ConfigurationKey &key = where->second;
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
-- 
2.43.0


From 40d1c57445eea27e8c19e95751addf76da00c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 30/63] fix: choices without a description are recognised as
 valid values

---
 Configuration.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index f1f31f2..53ddad0 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -378,26 +378,19 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CHOICE: {
-			int startPos = -1;
-			uint endPos = 0;
-
+			// A list of items separated by ',', each a value optionally followed by '|' and its description.
 			std::string tmp = key.getValidValues();
-
-			do {
-				startPos++;
-				if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-					if (val == tmp.substr(startPos, endPos-startPos)) {
-						ret = true;
-						break;
-					}
-				} else {
-					if (val == tmp.substr(startPos, tmp.find(',', startPos)-startPos)) {
-						ret = true;
-						break;
-					}
+			size_t startPos = 0;
+			while (true) {
+				size_t endPos = tmp.find(',', startPos);
+				std::string item = tmp.substr(startPos, endPos-startPos);
+				if (val == item.substr(0, item.find('|'))) {
+					ret = true;
+					break;
 				}
-
-			} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
+				if (endPos == std::string::npos) break;
+				startPos = endPos+1;
+			}
 			break;
 		}
 
-- 
2.43.0


From 325c2c559890a9e0ec933624a84ecd41f84851a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 31/63] fix: an address without port or prefix, or one with
 text after the number, is not valid

---
 Configuration.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 53ddad0..6f566ff 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -355,6 +355,19 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 	return mSchema.find(name) == mSchema.end() ? false : true;
 }
 
+// Return the number in text, or -1 if the text is anything but a decimal number up to the given maximum.
+static int wholeNumber(const std::string& text, int max)
+{
+	if (text.length() == 0) return -1;
+	int result = 0;
+	for (size_t i = 0; i < text.length(); i++) {
+		if (text[i] < '0' || text[i] > '9') return -1;
+		result = result*10 + (text[i]-'0');
+		if (result > max) return -1;
+	}
+	return result;
+}
+
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
@@ -401,14 +414,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int cidr = -1;
 
 			delimiter = val.find('/');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> cidr;
+				cidr = wholeNumber(val.substr(delimiter+1), 32);
 				if (ConfigurationKey::isValidIP(ip) && 0 <= cidr && cidr <= 32) {
 					ret = true;
 				}
@@ -445,7 +458,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
 			int port = -1;
 			bool validHost = false;
@@ -453,7 +466,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				host = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
+				port = wholeNumber(val.substr(delimiter+1), 65535);
 				if (ConfigurationKey::isValidIP(host)) {
 					validHost = true;
 				} else {
@@ -490,14 +503,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
+				port = wholeNumber(val.substr(delimiter+1), 65535);
 				if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
 					ret = true;
 				}
@@ -553,9 +566,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
-
-			std::stringstream(val) >> intVal;
+			int intVal = wholeNumber(val, 65535);
 
 			if (1 <= intVal && intVal <= 65535) {
 				ret = true;
-- 
2.43.0


From c6df36a64fe3aff40157b0a8e8b760782b930224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 32/63] fix: every address of a list is validated with its own
 port

---
 Configuration.cpp | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 6f566ff..6ff0c6c 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -525,37 +525,22 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::MIPADDRESS: {
-			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
-			std::string ip;
-			int port = -1;
-
-			do {
-				startPos++;
-				endPos = val.find(' ', startPos);
-				port = -1;
-
-				if (ConfigurationKey::isValidIP(val.substr(startPos, endPos-startPos))) {
-					ret = true;
-				} else {
-					delimiter = val.find(':');
-					if (delimiter != std::string::npos) {
-						ip = val.substr(startPos, delimiter);
-						std::stringstream(val.substr(delimiter+1, endPos)) >> port;
-						if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
-							ret = true;
-						} else {
-							ret = false;
-							break;
-						}
-					} else {
-						ret = false;
-						break;
-					}
+			size_t startPos = 0;
+			ret = true;
+			while (ret) {
+				size_t endPos = val.find(' ', startPos);
+				std::string item = val.substr(startPos, endPos-startPos);
+				size_t delimiter = item.find(':');
+
+				if (!ConfigurationKey::isValidIP(item.substr(0, delimiter))) {
+					ret = false;
+				} else if (delimiter != std::string::npos && wholeNumber(item.substr(delimiter+1), 65535) < 1) {
+					ret = false;
 				}
 
-			} while ((startPos = endPos) != (int)std::string::npos);
+				if (endPos == std::string::npos) break;
+				startPos = endPos+1;
+			}
 			break;
 		}
 
-- 
2.43.0


From 6f8d3a06254a85134be8b57553df75688bef6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 33/63] fix: an expression that did not compile is not freed

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 6ff0c6c..2e3d799 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -574,8 +574,8 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 				regerror(result,&r,msg,255);
 			} else {
 				ret = true;
+				regfree(&r);
 			}
-			regfree(&r);
 			break;
 		}
 
-- 
2.43.0


From 9cb5ed2ad114c14cc54aac8797a54aa5d8f4f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 34/63] fix: only a whole number is in a range

---
 Configuration.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2e3d799..4f9fc86 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -605,9 +605,9 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			regex_t r;
 			int result;
 			if (key.getValidValues().find('.') != std::string::npos) {
-				result = regcomp(&r, "^[0-9.-]+$", REG_EXTENDED);
+				result = regcomp(&r, "^-?([0-9]+\\.?[0-9]*|\\.[0-9]+)$", REG_EXTENDED);
 			} else {
-				result = regcomp(&r, "^[0-9-]+$", REG_EXTENDED);
+				result = regcomp(&r, "^-?[0-9]+$", REG_EXTENDED);
 			}
 			if (result) {
 				char msg[256];
@@ -1066,7 +1066,8 @@ template<class T> bool ConfigurationKey::isInValRange(const ConfigurationKey &ke
 	std::string strMax;
 	std::string strSteps;
 
-	std::stringstream(val) >> convVal;
+	// A number that cannot be represented is in no range.
+	if (!(std::stringstream(val) >> convVal)) return false;
 
 	ConfigurationKey::getMinMaxStepping(key, strMin, strMax, strSteps);
 	std::stringstream(strMin) >> min;
-- 
2.43.0


From 5c58839b99dec4292f87a9e4c18b3d8d7c355317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 35/63] fix: parsing key=value items frees its copy of the text

---
 Configuration.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 4f9fc86..c1c8300 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -975,7 +975,10 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) {
+		free(pair);
+		return;
+	}
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1018,8 +1021,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *rest = pairs;
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&rest," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From be14be6a875db6a614b069587ece6eec48ee2bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 36/63] fix: SimpleKeyValue::getNum tells whether the value is
 a number

---
 Configuration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index c1c8300..8e90235 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1013,8 +1013,10 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 {
 	HashStringMap::const_iterator p = mMap.find(key);
 	if (p==mMap.end()) { valid = false; return 0; }
-	// TODO: we should verify it is really a number.
-	return atol(p->second.c_str());
+	char *end;
+	long result = strtol(p->second.c_str(),&end,10);
+	valid = end != p->second.c_str() && *end == '\0';
+	return result;
 }
 
 
-- 
2.43.0


From 2e808b70cd3a7d7a33c64fd1c808c4f333a26395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:01 +0000
Subject: [PATCH 37/63] fix: the log level cache tells file names with equal
 hashes apart

---
 Logger.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..94d21d0 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -143,14 +143,13 @@ int gGetLoggingLevel(const char* filename)
 	// This is called a lot and needs to be efficient.
 
 	static Mutex sLogCacheLock;
-	static map<uint64_t,int>  sLogCache;
+	static map<string,int>  sLogCache;	// by the whole name, not a hash of it, so no two files can be confused
 	static unsigned sCacheCount;
 	static const unsigned sCacheRefreshCount = 1000;
 
 	if (filename==NULL) return gGetLoggingLevel("");
 
-	HashString hs(filename);
-	uint64_t key = hs.hash();
+	string key(filename);
 
 	sLogCacheLock.lock();
 	// Time for a cache flush?
@@ -159,7 +158,7 @@ int gGetLoggingLevel(const char* filename)
 		sCacheCount=0;
 	}
 	// Is it cached already?
-	map<uint64_t,int>::const_iterator where = sLogCache.find(key);
+	map<string,int>::const_iterator where = sLogCache.find(key);
 	sCacheCount++;
 	if (where!=sLogCache.end()) {
 		int retVal = where->second;
@@ -172,7 +171,7 @@ int gGetLoggingLevel(const char* filename)
 	sLogCacheLock.unlock();
 	int level = getLoggingLevel(filename);
 	sLogCacheLock.lock();
-	sLogCache.insert(pair<uint64_t,int>(key,level));
+	sLogCache.insert(pair<string,int>(key,level));
 	sLogCacheLock.unlock();
 	return level;
 }
-- 
2.43.0


From 3209116fffc9ce0a280c675179f09e57c530057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:00 +0000
Subject: [PATCH 38/63] fix: log group levels are read from a live string

---
 Logger.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 94d21d0..f0c3ffd 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -373,12 +373,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Return the value, or an empty string if the parameter is not defined.
+// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
+static string getStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	if (! gConfig.defines(param)) { return string(); }
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -391,7 +391,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -400,7 +401,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From e8b31ab058b0d7453a0535a963e124ba7dd247e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 39/63] fix: report names of any length and content are
 addressed exactly

---
 Reporting.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..4e3dd64 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -25,6 +25,7 @@
 
 #include "Reporting.h"
 #include "Logger.h"
+#include "sqlite3util.h"
 #include <stdio.h>
 #include <string.h>
 
@@ -72,9 +73,8 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (%s,%ld)", sqlQuote(paramName), (long)time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +96,8 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=%s", newVal, (long)time(NULL), sqlQuote(paramName).c_str());
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +107,8 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=%s", (long)time(NULL), sqlQuote(paramName).c_str());
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -187,13 +185,12 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=%s", mp->second, (long)time(NULL), sqlQuote(mp->first).c_str());
+			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From 6ea43065cd1beb401de1cda40dd4427bef0f8117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 40/63] fix: the names of indexed reports fit their buffers

---
 Reporting.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 4e3dd64..b49e3e5 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -133,7 +133,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 {
 	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
+		char name[sz+12];	// a dot, up to ten digits and the terminator
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
 	}
@@ -142,7 +142,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];	// a dot, up to ten digits and the terminator
 	sprintf(name,"%s.%u",baseName,index);
 	return incr(name);
 }
@@ -150,7 +150,7 @@ bool ReportingTable::incr(const char* baseName, unsigned index)
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];	// a dot, up to ten digits and the terminator
 	sprintf(name,"%s.%u",baseName,index);
 	return max(name,newVal);
 }
@@ -158,7 +158,7 @@ bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];	// a dot, up to ten digits and the terminator
 	sprintf(name,"%s.%u",baseName,index);
 	return clear(name);
 }
-- 
2.43.0


From e8837f41db08befc4c389b61e681007515b322aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 41/63] fix: creating indexed reports terminates when the last
 index is the largest unsigned

---
 Reporting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b49e3e5..5eb47fb 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -132,9 +132,9 @@ bool ReportingTable::clear()
 bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned maxIndex)
 {
 	size_t sz = strlen(baseName);
-	for (unsigned i = minIndex; i<=maxIndex; i++) {
+	for (unsigned long i = minIndex; i<=maxIndex; i++) {
 		char name[sz+12];	// a dot, up to ten digits and the terminator
-		sprintf(name,"%s.%u",baseName,i);
+		sprintf(name,"%s.%u",baseName,(unsigned)i);
 		if (!create(name)) return false;
 	}
 	return true;
-- 
2.43.0


From f2c8235c84073af00c32d9e064adf8b334a8f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 42/63] fix: the log facility of the reporting table is
 initialised

---
 Reporting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 5eb47fb..26159c5 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -40,6 +40,7 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
+	:mFacility(0)	// gLogEarly adds the default facility
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
-- 
2.43.0


From e917f549fd1134c820661ad2a15a626a31d5f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 43/63] fix: the committer thread serves the table that started
 it and does not undo a shutdown

---
 Reporting.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 26159c5..4793628 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -40,7 +40,8 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
-	:mFacility(0)	// gLogEarly adds the default facility
+	:mFacility(0),	// gLogEarly adds the default facility
+	mReportRunning(true)	// set here and not by the thread, which may start after reportShutdown
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -60,7 +61,7 @@ ReportingTable::ReportingTable(const char* filename)
 		gLogEarly(LOG_EMERG | mFacility, "Cannot enable WAL mode on database at %s, error message: %s", filename, sqlite3_errmsg(mDB));
 	}
 	// Start the commit thread
-	mBatchCommitter.start((void*(*)(void*))reportingBatchCommitter,NULL);
+	mBatchCommitter.start((void*(*)(void*))reportingBatchCommitter,this);
 }
 
 
@@ -203,13 +204,12 @@ bool ReportingTable::commit()
 	return true;
 }
 
-extern ReportingTable gReports;
-void* reportingBatchCommitter(void*)
+void* reportingBatchCommitter(void* arg)
 {
-	gReports.mReportRunning = true;
-	while (gReports.mReportRunning) {
+	ReportingTable* reports = (ReportingTable*)arg;
+	while (reports->mReportRunning) {
 		sleep(10);
-		gReports.commit();
+		reports->commit();
 	}
 
 	return NULL;
-- 
2.43.0


From 8a0af55833fe44d268aa2bea8dc0e09448315380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 44/63] fix: increments whose database update fails are not
 lost

---
 Reporting.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 4793628..ac57d6c 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -170,6 +170,7 @@ bool ReportingTable::commit()
 	ReportBatch oustanding;
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
+	bool ok = true;
 
 	// copy out to free up access to mBatch as quickly as possible
 	mLock.lock();
@@ -194,6 +195,11 @@ bool ReportingTable::commit()
 			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=%s", mp->second, (long)time(NULL), sqlQuote(mp->first).c_str());
 			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// keep the increments for the next commit
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
+				ok = false;
 			}
 			mp++;
 		}
@@ -201,7 +207,7 @@ bool ReportingTable::commit()
 		LOG(INFO) << "wrote " << oustandingCount << " entries in " << timer.elapsed() << "ms";
 	}
 
-	return true;
+	return ok;
 }
 
 void* reportingBatchCommitter(void* arg)
-- 
2.43.0


From 1dbc26251215f793fffe822dd163bdf54c2141da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 45/63] fix: clearing reports also clears their increments not
 yet committed

---
 Reporting.cpp | 10 ++++++++++
 Reporting.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index ac57d6c..0f1a49f 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -109,11 +109,16 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
+	ScopedLock committing(mCommitLock);
+	ScopedLock lock(mLock);
 	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=%s", (long)time(NULL), sqlQuote(paramName).c_str());
 	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
+	// forget the increments from before the clear
+	ReportBatch::iterator mp = mBatch.find(paramName);
+	if (mp != mBatch.end()) mp->second = 0;
 	return true;
 }
 
@@ -121,12 +126,16 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
+	ScopedLock committing(mCommitLock);
+	ScopedLock lock(mLock);
 	char cmd[200];
 	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
 	if (!sqlite3_command(mDB,cmd)) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
+	// forget the increments from before the clear
+	for (ReportBatch::iterator mp = mBatch.begin(); mp != mBatch.end(); mp++) mp->second = 0;
 	return true;
 }
 
@@ -167,6 +176,7 @@ bool ReportingTable::clear(const char* baseName, unsigned index)
 
 bool ReportingTable::commit()
 {
+	ScopedLock committing(mCommitLock);
 	ReportBatch oustanding;
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
diff --git a/Reporting.h b/Reporting.h
index c6bbc08..b16c636 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -47,6 +47,7 @@ class ReportingTable {
 	int mFacility;				///< rsyslogd facility
 	ReportBatch mBatch;			///< batch of report updates, not yet stored in the db
 	mutable Mutex mLock;		///< control for multithreaded read/write access to the batch
+	Mutex mCommitLock;			///< held during a commit or a clear, taken before mLock
 	Thread mBatchCommitter;		///< thread responsible for committing batches of report updates to the db
 
 
-- 
2.43.0


From b2f9699ede46092e459aeb0c79b87b7a90780ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 46/63] fix: resolving an address without a port does not leak

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..21a3be6 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,6 +59,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
-- 
2.43.0


From 2bb4ff84f6351312eb036b7300adb8e40b67b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 47/63] fix: an address with a port above 65535 is not resolved
 to another port

---
 Sockets.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 21a3be6..dbcd01b 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -64,7 +64,12 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	}
 	*colon = '\0';
 	char *host = copy;
-	unsigned port = strtol(colon+1,NULL,10);
+	long port = strtol(colon+1,NULL,10);
+	if (port<0 || port>65535) {
+		LOG(WARNING) << "port number out of range in:"<<hostAndPort;
+		free(copy);
+		return false;
+	}
 	bool retVal = resolveAddress(address,host,port);
 	free(copy);
 	return retVal;
-- 
2.43.0


From 7145fb2f2b4fcf91eaa570169d9a47c8893c6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 48/63] fix: the result of gethostbyname is copied before
 another thread may overwrite it

---
 Sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index dbcd01b..d21c6f7 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -99,10 +99,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 	// Ideally it should be a global mutex for all non thread-safe socket
 	// operations and it should protect access to variables such as
 	// global h_errno.
-	sGethostbynameMutex.lock();
+	// The result is static data, so hold the mutex until it has been copied.
+	ScopedLock lock(sGethostbynameMutex);
 	hp = gethostbyname(host);
 	h_errno_local = h_errno;
-	sGethostbynameMutex.unlock();
 #endif
  	if (hp==NULL) {
 		LOG(WARNING) << "gethostbyname() failed for " << host << ", " << hstrerror(h_errno_local);
-- 
2.43.0


From f25e85ad44ad9d21e6318e2c5ce78710273d31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 49/63] fix: a datagram socket closes each descriptor it opened
 exactly once, and no other

---
 Sockets.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index d21c6f7..4119f20 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -122,8 +122,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 
 DatagramSocket::DatagramSocket()
+	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
+	memset(mSource, 0, sizeof(mSource));
 }
 
 
@@ -142,7 +144,8 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
-	::close(mSocketFD);
+	if (mSocketFD>=0) ::close(mSocketFD);
+	mSocketFD = -1;
 }
 
 
@@ -272,7 +275,8 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 
 void UDPSocket::open(unsigned short localPort)
 {
-	// create
+	// create, not leaking a socket opened before
+	close();
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
 		perror("socket() failed");
@@ -330,7 +334,8 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
-	// create
+	// create, not leaking a socket opened before
+	close();
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
 		perror("socket() failed");
-- 
2.43.0


From f0b8e3d6411462a5a868fca15f2fa6d9b078b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 50/63] fix: a unix domain socket path that does not fit the
 address is refused

---
 Sockets.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 4119f20..464fc23 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -334,6 +334,11 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	if (strlen(localPath) >= sizeof(((struct sockaddr_un*)0)->sun_path)) {
+		LOG(ERR) << "socket path too long: " << localPath;
+		throw SocketError();
+	}
+
 	// create, not leaking a socket opened before
 	close();
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
@@ -364,6 +369,10 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	if (strlen(remotePath) >= sizeof(unAddr->sun_path)) {
+		LOG(ERR) << "socket path too long: " << remotePath;
+		throw SocketError();
+	}
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From c26f8fa653ef14d9596f7267032a16ba34e4e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 51/63] fix: the destination of a unix domain socket has its
 address family

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 464fc23..4586427 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -373,6 +373,7 @@ void UDDSocket::destination(const char* remotePath)
 		LOG(ERR) << "socket path too long: " << remotePath;
 		throw SocketError();
 	}
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From 1f69728caea3849aae632b533f3055cf6048b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 52/63] fix: a timed read of a socket with a high descriptor
 does not write past an fd_set

---
 Sockets.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 4586427..bbccf54 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,8 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <limits.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -228,21 +229,19 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	// Not select, which cannot wait for descriptors of FD_SETSIZE and above.
+	struct pollfd pfd;
+	pfd.fd = mSocketFD;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	int sel = poll(&pfd,1,timeout>INT_MAX ? INT_MAX : (int)timeout);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() poll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From f4a40b82adaf73e5b428521a64431c5c50c5109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 53/63] fix: saving files with a core dump is off until it is
 asked for

---
 UnixSignal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..0d1ef4c 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -115,6 +115,7 @@ UnixSignal::UnixSignal(void)
 	//signal(i, _sigHandler);
     }
     mAddPid = false;
+    mSaveFiles = false;
     mCoreFile = "core";
 }
 
-- 
2.43.0


From 611eab1816bcd75b3decc3c902d237e3ca924e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 54/63] fix: handling an out of range signal does not index
 past the handler lists

---
 UnixSignal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index 0d1ef4c..d4f4fc3 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -54,6 +54,11 @@ static void _sigHandler(int sig)
 
 void UnixSignal::Handler(int sig)
 {
+    if (sig <= 0 || sig >= C_NSIG)
+    {
+	LOG(ERR) << "Signal Handler for signal " << sig << " (out of range)";
+	return;
+    }
     // Only write core files for the signals that need core
     switch(sig)
     {
-- 
2.43.0


From f2874ce96a245e8f6adf776438602aa0e3a2bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:48 +0000
Subject: [PATCH 55/63] fix: of two instances starting at once only one gets
 the pid file

The check that no pid file exists and its creation were separate steps.
Create the file exclusively, so that the loser exits and the file keeps
naming the winner.
---
 SelfDetect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..cfa2fc8 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -70,7 +70,7 @@ void SelfDetect::RegisterProgram(const char *argv0)
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
+    FILE *fp = fopen(buf, "wx");	// only if no other instance created it meanwhile
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
-- 
2.43.0


From 052d41bfc1cf64361ce091de8d9080d8c9009440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:03 +0000
Subject: [PATCH 56/63] fix: a number formatted together with a string keeps
 its type

---
 Utils.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/Utils.h b/Utils.h
index ec5f1dc..fc1cffc 100644
--- a/Utils.h
+++ b/Utils.h
@@ -53,15 +53,25 @@ inline string format(const char *fmt, string s1, string s2, string s3) {
 inline string format(const char *fmt, string s1, string s2, string s3, string s4) {
 	return format1(fmt,s1.c_str(),s2.c_str(),s3.c_str(),s4.c_str());
 }
-inline string format(const char *fmt, string s1, int i1) {
-	return format1(fmt,s1.c_str(),i1);
-}
-inline string format(const char *fmt, int i1, string s1) {
-	return format1(fmt,i1,s1.c_str());
-}
-inline string format(const char *fmt, string s1, string s2, int i1) {
-	return format1(fmt,s1.c_str(),s2.c_str(),i1);
+// The number must keep its type, or it will not be the one the conversion in fmt asks for.
+#define FORMAT_NUMBER(type) \
+inline string format(const char *fmt, string s1, type i1) { \
+	return format1(fmt,s1.c_str(),i1); \
+} \
+inline string format(const char *fmt, type i1, string s1) { \
+	return format1(fmt,i1,s1.c_str()); \
+} \
+inline string format(const char *fmt, string s1, string s2, type i1) { \
+	return format1(fmt,s1.c_str(),s2.c_str(),i1); \
 }
+FORMAT_NUMBER(int)
+FORMAT_NUMBER(unsigned)
+FORMAT_NUMBER(long)
+FORMAT_NUMBER(unsigned long)
+FORMAT_NUMBER(long long)
+FORMAT_NUMBER(unsigned long long)
+FORMAT_NUMBER(double)
+#undef FORMAT_NUMBER
 inline string format(const char *fmt, string s1, string s2, int i1, int i2) {
 	return format1(fmt,s1.c_str(),s2.c_str(),i1,i2);
 }
-- 
2.43.0


From 9c51128063119a2e1f9028604cb7a0514ac1ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:43 +0000
Subject: [PATCH 57/63] fix: a choice without a description is printed as
 itself

---
 Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 8e90235..6b584ef 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1240,11 +1240,12 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 
 	} else if (key.getType() == ConfigurationKey::CHOICE) {
 		int startPos = -1;
-		uint endPos = 0;
+		size_t endPos = 0;
 
 		do {
 			startPos++;
-			if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
+			// a description belongs to this choice only when it starts before the next one
+			if ((endPos = tmp.find('|', startPos)) < tmp.find(',', startPos)) {
 				os << " - valid values:     " << tmp.substr(startPos, endPos-startPos);
 				os << " = " << tmp.substr(endPos+1, tmp.find(',', endPos)-endPos-1) << std::endl;
 			} else {
-- 
2.43.0


From 641d396d1be255181f52283300abaab8a98fb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:06 +0000
Subject: [PATCH 58/63] fix: a table cell longer than 248 characters was cut
 and lost its separator

---
 Utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 0187f71..713629e 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -447,7 +447,6 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 		}
 
 		for (unsigned col = 0; col<maxcols && col<row.size(); col++) {
-			char buf[252];
 			const char *val = row[col].c_str();
 			if (0 == strcmp(val,"_")) { val = ""; }	// Dont print "_", used to easily format the header fields.
 			if (tabSeparated) {
@@ -458,8 +457,9 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 				//int pad = 0;
 				//if (nrow < 2) { pad = (width[col] - strlen(val)) / 2; }
 				//sprintf(buf,"%*s%.*s ",(width[col]-pad),val,pad,"                         ");
-				snprintf(buf,250,"%-*s ",width[col],val);
-				os << buf;
+				string cell(val);
+				if ((int)cell.size() < width[col]) { cell.resize(width[col],' '); }
+				os << cell << " ";
 			}
 		}
 		os << "\n";
-- 
2.43.0


From 939838f55602dd07f80dce768a03618ec7a8a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:42 +0000
Subject: [PATCH 59/63] fix: printing a large statistic count copied between
 overlapping strings

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index fc1cffc..44f90a9 100644
--- a/Utils.h
+++ b/Utils.h
@@ -160,7 +160,7 @@ template<class Type> struct Statistic {
 			} else { // Shorten this up:
 				char buf[10], *ep;
 				sprintf(buf,"%.3g",round(mCnt));
-				if ((ep = strchr(buf,'e')) && ep[1] == '+') { strcpy(ep+1,ep+2); }
+				if ((ep = strchr(buf,'e')) && ep[1] == '+') { memmove(ep+1,ep+2,strlen(ep+2)+1); }
 				os << LOGVAR2("N",buf);
 			}
 			// os<<LOGVAR2("sd",getSD())  standard deviation not interesting
-- 
2.43.0


From 4e5a8a319139e2bef8c9cf6d29f937a3c178ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:44 +0000
Subject: [PATCH 60/63] fix: sleeping for more than 4294 seconds slept for a
 small part of it

---
 Utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 713629e..7b6b716 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -309,7 +309,10 @@ const string timestr() { return timestr(12); }
 void sleepf(double howlong)
 {
 	if (howlong <= 0.00001) return;		// Less than 10 usecs, forget it.
-	usleep((useconds_t) (1000000.0 * howlong));
+	struct timespec ts;		// The argument of usleep overflows for times over 4294 seconds.
+	ts.tv_sec = (time_t) howlong;
+	ts.tv_nsec = (long) (1000000000.0 * (howlong - ts.tv_sec));
+	nanosleep(&ts,NULL);
 }
 
 //bool sleepuntil(double untilwhen)
-- 
2.43.0


From 434905196b24943b94a81233c97f0a938fcb88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:03 +0000
Subject: [PATCH 61/63] fix: copies of leak-checked objects were counted when
 deleted but not when made

---
 MemoryLeak.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index c7ae4f9..2438dd9 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -81,7 +81,12 @@ extern int gMemLeakDebug;
 
 struct MemLabel {
 	std::string mccKey;
+	MemLabel() {}
+	// The label tells where an object was allocated; its copies were not.
+	MemLabel(const MemLabel &) {}
+	MemLabel &operator=(const MemLabel &) { return *this; }
 	virtual ~MemLabel() {
+		if (mccKey.empty()) { return; }
 		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
 	}
 };
@@ -107,6 +112,7 @@ struct MemLabel {
 #define DEFINE_MEMORY_LEAK_DETECTOR_CLASS(subClass,checkerClass) \
 	struct checkerClass : public virtual Utils::MemLabel { \
 	    checkerClass() { RN_MEMCHKNEW(subClass); } \
+	    checkerClass(const checkerClass &other) : Utils::MemLabel(other) { RN_MEMCHKNEW(subClass); } \
 		virtual ~checkerClass() { \
 			RN_MEMCHKDEL(subClass); \
 		} \
-- 
2.43.0


From 23e6ab43ab45832e7df9c64c024728a02714f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:03 +0000
Subject: [PATCH 62/63] fix: the leak detector read and counted labels without
 its lock

---
 MemoryLeak.h | 5 +++--
 Utils.cpp    | 8 ++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index 2438dd9..fff286a 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -65,6 +65,7 @@ struct MemStats {
 	MemStats();
 	void memChkNew(MemoryNames memIndex, const char *id);
 	void memChkDel(MemoryNames memIndex, const char *id);
+	void memLabelAdd(const std::string &key, int change);
 	void text(std::ostream &os);
 	// We would prefer to use an unordered_map, but that requires special compile switches.
 	// What a super great language.
@@ -87,7 +88,7 @@ struct MemLabel {
 	MemLabel &operator=(const MemLabel &) { return *this; }
 	virtual ~MemLabel() {
 		if (mccKey.empty()) { return; }
-		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
+		Utils::gMemStats.memLabelAdd(mccKey,-1);
 	}
 };
 
@@ -105,7 +106,7 @@ struct MemLabel {
 #define RN_MEMLOG(type,ptr) { \
 	static std::string key = format("%s_%s:%d",#type,__FILE__,__LINE__); \
 	(ptr)->/* MemCheck##type:: */ mccKey = key; \
-	Utils::gMemStats.mMemMap[key]++; \
+	Utils::gMemStats.memLabelAdd(key,1); \
 	}
 
 // TODO: The above assumes that checkclass is MemCheck ## subClass
diff --git a/Utils.cpp b/Utils.cpp
index 7b6b716..cc2189a 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -80,6 +80,7 @@ MemStats::MemStats()
 
 void MemStats::text(ostream &os)
 {
+	ScopedLock lock(memChkLock);
 	os << "Structs current total:\n";
 	for (int i = 0; i < mMax; i++) {
 		os << "\t" << (mMemName[i] ? mMemName[i] : "unknown") << " " << mMemNow[i] << " " << mMemTotal[i] << "\n";
@@ -109,6 +110,13 @@ void MemStats::memChkDel(MemoryNames memIndex, const char *id)
 	}
 }
 
+void MemStats::memLabelAdd(const std::string &key, int change)
+{
+	ScopedLock lock(memChkLock);
+	Int_z &count = mMemMap[key];
+	count = count + change;
+}
+
 ostream& operator<<(std::ostream& os, std::ostringstream& ss)
 {
 	return os << ss.str();
-- 
2.43.0


From 05af9bdde69791051d2f7933cf8f80ead4c829ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 63/63] fix: sqlite_single_lookup_string was declared with a
 key type it is not defined for

---
 sqlite3util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3util.h b/sqlite3util.h
index 165d821..650f3c0 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -93,7 +93,7 @@ bool sqlite_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, std::string &valueData);
 
 //std::vector<std::string> sqlite_multi_lookup_vector(sqlite3* DB, const char* tableName, const char* keyName, const char* keyData, const char *resultColumns);
-std::string sqlite_single_lookup_string(sqlite3* DB, const char* tableName, const char* keyName, unsigned keyData, const char* valueName);
+std::string sqlite_single_lookup_string(sqlite3* DB, const char* tableName, const char* keyName, const char* keyData, const char* resultName);
 
 // Get and set attributes on an sqlite database.  Works by creating an ATTR_TABLE in the database.
 bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char *attr_value);
-- 
2.43.0

