From 82b90fe8bf57c8636430e108e484441d969c3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 01/72] fix: Array range verification builds its exceptions but
 never throws them

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..4ca8824 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
+		if (amountOfElements > array->dimension1Size - startingIndex)
+			throw new ArgumentOutOfRangeException();
 	}
 }
-- 
2.43.0


From 629d0a3dd7ead2031f793b837ab595f597f14956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 02/72] fix: an Array around platform memory releases memory it
 does not own

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..23bec9e 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		Boolean ownsData;				// true if the data storage was allocated by the array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 4ca8824..49cd0a3 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
@@ -65,8 +67,8 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
-			delete data;
+		if (data != nullptr && ownsData)
+			delete[] data;
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From ec1af6e71c27ab5947baf318fb02ec1ee8d1da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 03/72] fix: Array accepts negative dimensions and sizes that
 overflow

---
 DotNetLibrary/src/Array.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 49cd0a3..afdead3 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -51,6 +51,18 @@ namespace DotnetLibrary
 		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new ArgumentOutOfRangeException();
+		if (dimension2Size == -1 && dimension3Size != -1)
+			throw new ArgumentException();
+		// neither the element count nor the size in bytes may overflow
+		Int64 count = dimension1Size;
+		if (dimension2Size != -1)
+			count *= dimension2Size;
+		if (count <= INT32_MAX && dimension3Size != -1)
+			count *= dimension3Size;
+		if (count > INT32_MAX || count * DataTypeSize[dataType] > INT32_MAX)
+			throw new ArgumentOutOfRangeException();
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
-- 
2.43.0


From 6213f922215a5b3a5a37dfecf5951dbb4ce901c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 04/72] fix: Array.Copy misses an index overflow and mangles
 overlapping ranges

---
 DotNetLibrary/src/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index afdead3..c3a976e 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -108,7 +108,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
@@ -117,7 +117,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From 06e98d11aa82224d1efad9b46356fad3c5179039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 05/72] fix: Array dimension queries accept ranks the array
 does not have

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index c3a976e..0cafc5e 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -159,7 +159,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -170,12 +170,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From 5e757d2bf13e98b36a1229fe8458baf7ce148ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 06/72] fix: Array index lists of other element types are read
 as 32 bit integers

---
 DotNetLibrary/src/Array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 0cafc5e..f03cf6e 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -183,6 +183,8 @@ namespace DotnetLibrary
 		if (indexes == nullptr)
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
+		if (indexes->dataType != Int32Type)
+			throw new ArgumentException();
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
@@ -340,6 +342,8 @@ namespace DotnetLibrary
 		if (indexes == nullptr)
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
+		if (indexes->dataType != Int32Type)
+			throw new ArgumentException();
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
-- 
2.43.0


From 1cf9d54fb692212e2bd66e2ac88b1fdc48d5ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 07/72] fix: Buffer.BlockCopy rejects empty ranges and treats
 Decimal, DateTime and TimeSpan as primitive

---
 DotNetLibrary/src/Buffer.cpp | 8 +++++---
 DotNetLibrary/src/Object.cpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..33fc2eb 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -36,10 +36,12 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			throw new ArgumentOutOfRangeException();
-		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
-		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		Int32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
+		Int32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
+		if ((srcOffset > sourceLength - count) || (dstOffset > destinationLength - count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 704accb..11678e2 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -33,7 +33,7 @@ namespace DotnetLibrary
 		return (this == object);
 	}
 	Boolean Object::IsPrimitiveType(DataType type) {
-		return (type != ObjectType && type != StringType && type != NullType);
+		return (type >= BooleanType && type <= DoubleType);
 	}
 	String* Object::ToString() {
 		Char chars[128];
-- 
2.43.0


From f6f5c38e6323839d56068562c4b691f25427a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 08/72] fix: Buffer.GetByte and SetByte accept negative indexes

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 33fc2eb..02b8e43 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -59,13 +59,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index < 0 || index >= ByteLength(array))
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index < 0 || index >= ByteLength(array))
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From e91d0651aec49b3e635043220be61e0dbe752d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 09/72] fix: BitConverter.ToString overflows the size of its
 text

---
 DotNetLibrary/src/BitConverter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..09e164d 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -151,6 +151,9 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		if (length == 0)
 			return String::Empty;
+		// every byte takes three characters
+		if (length > INT32_MAX / 3)
+			throw new ArgumentOutOfRangeException();
 		StringBuilder builder(length * 3 - 1);
 		Int32 end = startIndex + length;
 
-- 
2.43.0


From aca881e78fdfd9e3bee792908ad49cb11f52cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 10/72] fix: StringBuilder cannot be built from null or empty
 strings

---
 DotNetLibrary/src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..48e09fb 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,8 +69,9 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
+		chunkChars[length] = 0;
 		currentLength = length;
 	}
 	StringBuilder::~StringBuilder() {
-- 
2.43.0


From 2bc5f26155e33de059dcdfa87fa20cbf65b83a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 11/72] fix: StringBuilder.Capacity can drop below the length
 or exceed the maximum

---
 DotNetLibrary/src/StringBuilder.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 48e09fb..a4d06ba 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -121,6 +121,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -131,11 +134,12 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
+			// round up, but never past the maximum
 			if (partial > 0)
-				capacity += DefaultCapacity;
-			newArray = new Char[capacity + 1];
+				capacity = (DefaultCapacity - partial > maxCapacity - capacity) ? maxCapacity : capacity + (DefaultCapacity - partial);
+			newArray = new Char[(size_t) capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
+			newArray[currentLength] = 0;
 			if (chunkChars != internalMemory)
 				delete chunkChars;
 		}
-- 
2.43.0


From 215de3ae8c977d1e2fbf5ee050d33963c560fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 12/72] fix: growing StringBuilder.Length brings back removed
 text

---
 DotNetLibrary/src/StringBuilder.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index a4d06ba..084ede9 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -96,20 +96,20 @@ namespace DotnetLibrary
 		if (newLength > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-		if (newLength == 0) {
-			currentLength = 0;
-			memset(chunkChars, 0, currentCapacity * sizeof(Char));
-			return;
-		}
 		EnsureCapacity(newLength);
 		int delta = newLength - currentLength;
 		if (delta == 0) {
 			return;
 		}
 		if (delta < 0) {
-			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
+			memset(chunkChars + newLength, 0, -delta * sizeof(Char));
+		}
+		else {
+			// text removed before must not come back
+			memset(chunkChars + currentLength, 0, delta * sizeof(Char));
 		}
 		currentLength = newLength;
+		chunkChars[currentLength] = 0;
 	}
 	Int32 StringBuilder::get_Capacity() {
 		return currentCapacity;
-- 
2.43.0


From cb401b56f2cea1f7517c94603a3a9e9f2972e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 13/72] fix: StringBuilder.Append writes past its memory for
 repeated characters and negative ranges

---
 DotNetLibrary/src/StringBuilder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 084ede9..6301e79 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -194,7 +194,10 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (charCount < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
@@ -267,7 +270,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
@@ -318,6 +321,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From 0f4e1827c5a94e0ab00f936a595f4e433bcd74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 14/72] fix: StringBuilder.Append and Insert dereference null
 values

---
 DotNetLibrary/src/StringBuilder.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6301e79..6b0745c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -261,6 +261,8 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr)
+			return (this);
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -278,6 +280,8 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr)
+			return (this);
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
@@ -407,11 +411,21 @@ namespace DotnetLibrary
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
+		if (value == nullptr)
+			return (this);
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		if (count < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (value == nullptr)
+			return (this);
+		if ((Int64) value->get_Length() * count > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
-- 
2.43.0


From f90fd9d61f39505fa82a10917b43e2abc8d9154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 15/72] fix: StringBuilder.Insert treats index -1 as the end
 and accepts other negative indexes

---
 DotNetLibrary/include/StringBuilder.h |  5 +++++
 DotNetLibrary/src/StringBuilder.cpp   | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..33e4511 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -36,6 +36,11 @@ namespace DotnetLibrary
 		Int32 currentCapacity;	// total size of the array
 		Int32 currentLength;	// current offset into array for next insert
 		Int32 maxCapacity;		// max capacity for this builder
+		/*!
+		 * Make sure text can be inserted at this index
+		 * @param index to check
+		 */
+		void VerifyInsertIndex(Int32 index);
 	public:
 		StringBuilder();
 		StringBuilder(Int32 capacity);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6b0745c..952d2c4 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -360,19 +360,28 @@ namespace DotnetLibrary
 		chunkChars[currentLength] = 0;
 		return this;
 	}
+	void StringBuilder::VerifyInsertIndex(Int32 index) {
+		if (index < 0 || index > currentLength) {
+			throw new IndexOutOfRangeException();
+		}
+	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
+		VerifyInsertIndex(index);
 		BooleanValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
+		VerifyInsertIndex(index);
 		ByteValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
+		VerifyInsertIndex(index);
 		CharValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
+		VerifyInsertIndex(index);
 		if (values == nullptr) {
 			return (this);
 		}
@@ -395,27 +404,33 @@ namespace DotnetLibrary
 		return (Append((Char*) values->Address(startIndex), charCount, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
+		VerifyInsertIndex(index);
 		DoubleValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
+		VerifyInsertIndex(index);
 		Int16Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
+		VerifyInsertIndex(index);
 		Int32Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
+		VerifyInsertIndex(index);
 		Int64Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
+		VerifyInsertIndex(index);
 		if (value == nullptr)
 			return (this);
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		VerifyInsertIndex(index);
 		if (count < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -430,22 +445,27 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
+		VerifyInsertIndex(index);
 		SByteValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
+		VerifyInsertIndex(index);
 		SingleValue data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
+		VerifyInsertIndex(index);
 		UInt16Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
+		VerifyInsertIndex(index);
 		UInt32Value data(value);
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
+		VerifyInsertIndex(index);
 		UInt64Value data(value);
 		return (Append(data, index));
 	}
-- 
2.43.0


From 77b985cffbff6f81d85a8b4d71044fec92ad2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 16/72] fix: StringBuilder.Remove copies overlapping memory
 with memcpy

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 952d2c4..8efe85c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -355,7 +355,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From 556c08665fcf2d09928ba06ac79b6dfcaa9aa8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 17/72] fix: StringBuilder.Equals ignores text after an
 embedded null

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 8efe85c..9044ac5 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -340,9 +340,9 @@ namespace DotnetLibrary
 		return get_Capacity();
 	}
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
-		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
+		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity || sb->currentLength != currentLength)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		return memcmp(sb->chunkChars, chunkChars, currentLength * sizeof(Char)) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0


From 05ec197ef365bd7dd486195958fdb68b0b7ef947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 18/72] fix: String built from part of a text does not check
 the length, and drops text after an embedded null

---
 DotNetLibrary/include/StringDotNet.h |  7 +++++++
 DotNetLibrary/src/StringBuilder.cpp  |  8 ++++----
 DotNetLibrary/src/StringDotNet.cpp   | 19 ++++++++++++++-----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index 277ae76..f33c822 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -330,6 +330,13 @@ namespace DotnetLibrary
 		 * @return true if found
 		 */
 		static Boolean IsWhiteSpace(Char value, Char* separators, Int32 separatorSize);
+		/*!
+		 * Build string from characters in memory
+		 * @param source characters, which can contain nulls
+		 * @param length amount of characters
+		 * @return new string
+		 */
+		static String* FromBuffer(const Char* source, Int32 length);
 		/*!
 		 * Join values in array with separators
 		 * @param separator to use
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9044ac5..2be37ea 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -175,14 +175,14 @@ namespace DotnetLibrary
 		*Address(index) = newChar;
 	}
 	String* StringBuilder::ToString() {
-		return (new String(chunkChars, 0, currentLength));
+		return (String::FromBuffer(chunkChars, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || length < 0)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (startIndex > currentLength - length)
 			throw new IndexOutOfRangeException();
-		return (new String(&chunkChars[startIndex], 0, length));
+		return (String::FromBuffer(&chunkChars[startIndex], length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize < currentLength)
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..855e22d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,9 +37,13 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
+		Int32 available = (Int32) wcslen(string);
+		if (startIndex < 0 || startIndex > available)
+			throw new ArgumentOutOfRangeException();
+		available -= startIndex;
 		if (length < 0)
-			length = (Int32) wcslen(string);
-		if (startIndex < 0 || startIndex > wcslen(string))
+			length = available;
+		if (length > available)
 			throw new ArgumentOutOfRangeException();
 
 		allocate = true;
@@ -91,6 +95,11 @@ namespace DotnetLibrary
 		}
 		characterData[length] = 0;
 	}
+	String* String::FromBuffer(const Char* source, Int32 length) {
+		String* str = new String((Char) 0, length);
+		memcpy(str->characterData, source, length * sizeof(Char));
+		return (str);
+	}
 	String::~String() {
 		if (allocate && characterData != nullptr)
 			delete characterData;
@@ -194,7 +203,7 @@ namespace DotnetLibrary
 	String* String::Copy(String* str) {
 		if (nullptr == str)
 			throw new ArgumentNullException();
-		return (new String(str->characterData, 0, str->length));
+		return (FromBuffer(str->characterData, str->length));
 	}
 	void String::CopyTo(Int32 sourceIndex, Array* destination, Int32 destinationIndex, Int32 count) {
 		if (destination == nullptr)
@@ -538,7 +547,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (FromBuffer(this->characterData + startIndex, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -640,7 +649,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (FromBuffer(get_Buffer() + start, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From 66f447211ce703a0a240464bedcce6aaf78984c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 19/72] fix: String built from a null array dereferences it

---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 855e22d..c929002 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -56,7 +56,7 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
+		if (values != nullptr && length < 0) {
 			length = values->get_Length();
 		}
 		if (values == nullptr || length == 0) {
@@ -75,7 +75,7 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		this->length = length;
-		characterData = new Char[length + 1];
+		characterData = new Char[(size_t) length + 1];
 		for (size_t i = 0; i < length; ++i) {
 			characterData[i] = *(Char*) values->Address((Int32) i + startIndex);
 		}
@@ -87,7 +87,7 @@ namespace DotnetLibrary
 		}
 		allocate = true;
 		this->length = amount;
-		characterData = new Char[length + 1];
+		characterData = new Char[(size_t) length + 1];
 		if (chr == 0)
 			return;
 		for (size_t i = 0; i < amount; ++i) {
-- 
2.43.0


From 83ddf994adcaed1ffbf2cf95b59137348c3d4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 20/72] fix: String comparisons read past the shorter string,
 ignore their range and dereference null

---
 DotNetLibrary/include/StringDotNet.h | 13 +++++++++++++
 DotNetLibrary/src/StringDotNet.cpp   | 25 ++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index f33c822..110c113 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -80,6 +80,19 @@ namespace DotnetLibrary
 		 */
 		static Int32 Compare(Char* s1, Int32 s1Index, Char* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
 		                     Boolean doOrdinal);
+		/*!
+		 * Compare parts of two strings, each of which can be null or end early
+		 * @param s1 string 1
+		 * @param s1Index index in string 1
+		 * @param s2 string 2
+		 * @param s2Index index in string 2
+		 * @param length most characters to compare
+		 * @param ignoreCase true if ignore case
+		 * @param doOrdinal do ordinal compare
+		 * @return -1 < 0 > 1
+		 */
+		static Int32 Compare(String* s1, Int32 s1Index, String* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
+		                     Boolean doOrdinal);
 		/*!
 		 * Compare two strings
 		 * @param s1 string 1
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index c929002..7692fbc 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -134,24 +134,39 @@ namespace DotnetLibrary
 						return (-1);
 				}
 			}
-			if (c1 == L'\0' || c1 != c2)
+			if (c1 != c2)
 				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
 			--length;
 		}
 		return 0;
 	}
+	Int32 String::Compare(String* s1, Int32 s1Index, String* s2, Int32 s2Index, Int32 length, Boolean ignoreCase, Boolean doOrdinal) {
+		if (length < 0 || s1Index < 0 || s2Index < 0)
+			throw new ArgumentOutOfRangeException();
+		if (s1 == nullptr || s2 == nullptr)
+			return (s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1));
+		if (s1Index > s1->get_Length() || s2Index > s2->get_Length())
+			throw new ArgumentOutOfRangeException();
+		// compare what both have, then the shorter one comes first
+		Int32 length1 = Math::Min(length, s1->get_Length() - s1Index);
+		Int32 length2 = Math::Min(length, s2->get_Length() - s2Index);
+		Int32 result = Compare(s1->get_Buffer(), s1Index, s2->get_Buffer(), s2Index, Math::Min(length1, length2), ignoreCase, doOrdinal);
+		if (result != 0 || length1 == length2)
+			return (result);
+		return (length1 < length2 ? -1 : 1);
+	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (Compare(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (Compare(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (Compare(s1, 0, s2, 0, Int32Value::MaxValue, false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (Compare(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
-- 
2.43.0


From b3dcd70ecdc914b0dce363a6e45693e9b295babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 21/72] fix: String.CompareTo(Object) always reports equality

---
 DotNetLibrary/src/StringDotNet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 7692fbc..b813d12 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -173,8 +173,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return (CompareTo((String*) value));
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From 4e0c59a8dab9f4c876f8888765a5439ea419bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 22/72] fix: String.Concat and Join read arrays of numbers as
 references

---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index b813d12..61cb4ab 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -184,7 +184,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -391,7 +391,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
@@ -418,7 +418,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
-- 
2.43.0


From 41fcc9d7bbcb90e5c94730387fa54ee037301187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 23/72] fix: String.Contains, StartsWith and EndsWith mishandle
 null, empty and longer arguments

---
 DotNetLibrary/src/StringDotNet.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 61cb4ab..4211e76 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -211,6 +211,10 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring == nullptr)
+			throw new ArgumentNullException();
+		if (substring->length == 0)
+			return (true);
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
@@ -249,6 +253,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -539,6 +546,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From bc14c0e1082254496c9fbd4e7ad1783cf0089c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 24/72] fix: String equality ignores text after an embedded
 null, CopyTo rejects empty ranges at the end

---
 DotNetLibrary/src/StringDotNet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 4211e76..cd65b9a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -237,6 +237,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
@@ -272,7 +274,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return memcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length() * sizeof(Char)) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
-- 
2.43.0


From b09f526b1b38804164f763aa141faf9c0193f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 25/72] fix: String.IndexOf accepts negative ranges and reports
 matches that end outside its range

---
 DotNetLibrary/src/StringDotNet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index cd65b9a..aa5d8ae 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -307,6 +307,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
@@ -338,7 +340,7 @@ namespace DotnetLibrary
 			return (-1);
 		Int32 delta = found - get_Buffer();
 		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		return (delta > endIndex - value->get_Length() ? -1 : delta);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From 4f1611a6ea6b1067df4be6502166239dc33c1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 26/72] fix: String.LastIndexOf searches outside the string and
 reports matches outside its range

---
 DotNetLibrary/src/StringDotNet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index aa5d8ae..19b801a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -453,6 +453,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -467,12 +469,14 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex; i > endIndex; --i) {
 			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
 			if (found != nullptr) {
 				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
+				if (delta == i && delta <= startIndex + 1 - value->get_Length())
 					return (delta);
 			}
 		}
@@ -485,6 +489,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
-- 
2.43.0


From 7d998cc3f50ef368f6225c8008452481c7707140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 27/72] fix: String.PadLeft and PadRight overflow the capacity
 they ask for

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 19b801a..782928a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -512,7 +512,7 @@ namespace DotnetLibrary
 		int count = width - oldLength;
 		if (count <= 0)
 			return this;
-		StringBuilder sb(length + width);
+		StringBuilder sb(width);
 		sb.Append(chr, count);
 		sb.Append(this);
 		return (sb.ToString());
@@ -524,7 +524,7 @@ namespace DotnetLibrary
 		int count = width - oldLength;
 		if (count <= 0)
 			return this;
-		StringBuilder sb(length + width);
+		StringBuilder sb(width);
 		sb.Append(this);
 		sb.Append(chr, count);
 		return (sb.ToString());
-- 
2.43.0


From ce1d6f5f1e727a708f37a687f82c59f5630c472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 28/72] fix: formatting writes a terminator past the memory
 supplied

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 2be37ea..251c0f5 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -185,7 +185,7 @@ namespace DotnetLibrary
 		return (String::FromBuffer(&chunkChars[startIndex], length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 782928a..eac7ff3 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -693,13 +693,15 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (whereSize < 1)
+			return;
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From 584846fcdb94345daab1588b3c0b115d56713a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 29/72] fix: Equals of boxed numbers and characters
 dereferences null

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..fe95949 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..8fed08c 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int32Value*) valueToCompare)->value;
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..0a00956 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((Int64Value*) valueToCompare)->value;
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..deff1df 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt32Value*) valueToCompare)->value;
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..63da17b 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt64Value*) valueToCompare)->value;
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From 67677171075bb8a5861d736cc1ccecf70a09e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 30/72] fix: CompareTo of 32 and 64 bit numbers overflows and
 reports the wrong order

---
 DotNetLibrary/src/CharValue.cpp   | 4 ++--
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index fe95949..59c671b 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -56,7 +56,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	Int32 CharValue::CompareTo(Char valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 CharValue::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -65,7 +65,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != CharType) {
 			throw new ArgumentException();
 		}
-		return value - ((CharValue*) valueToCompare)->value;
+		return CompareTo(((CharValue*) valueToCompare)->value);
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 8fed08c..567c2c5 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 0a00956..2c74473 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index deff1df..28d498f 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 63da17b..3802bb5 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From d36baeb5f30bc6a328520c387cffc4f915084132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 31/72] fix: parsing integers wraps values out of range,
 accepts negatives as unsigned and text after blanks

---
 DotNetLibrary/include/UInt64Value.h |  4 ++--
 DotNetLibrary/src/ByteValue.cpp     |  4 ++--
 DotNetLibrary/src/Int16Value.cpp    | 14 ++++++-------
 DotNetLibrary/src/Int32Value.cpp    | 14 ++++++-------
 DotNetLibrary/src/Int64Value.cpp    | 14 ++++++++++---
 DotNetLibrary/src/SByteValue.cpp    | 14 ++++++-------
 DotNetLibrary/src/UInt16Value.cpp   |  8 ++++----
 DotNetLibrary/src/UInt32Value.cpp   |  8 ++++----
 DotNetLibrary/src/UInt64Value.cpp   | 32 +++++++++++++++++++++--------
 9 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..74acbe1 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -155,7 +155,7 @@ namespace DotnetLibrary
 		 * Try parse internal
 		 * @param source of text
 		 * @param result of parse
-		 * @param sign sign of value
+		 * @param sign sign of value, 0 if a positive value does not fit (result is then MaxValue)
 		 * @return true if good parse
 		 */
 		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign);
@@ -164,7 +164,7 @@ namespace DotnetLibrary
 		 * @param source of text
 		 * @param sourceLength length of text
 		 * @param result of parse
-		 * @param sign sign of value
+		 * @param sign sign of value, 0 if a positive value does not fit (result is then MaxValue)
 		 * @return true if good parse
 		 */
 		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index f4a13ba..4f9894b 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -98,11 +98,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (Byte) value;
+		result = goodNumber ? (Byte) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index fdea7b4..1ad560b 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -91,23 +91,23 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int16) value * sign);
+		return (Int16) ((Int64) value * sign);
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		result = goodNumber ? (Int16) ((Int64) value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 567c2c5..26d272e 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -92,23 +92,23 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return (Int32) ((Int64) value * sign);
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		result = goodNumber ? (Int32) ((Int64) value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 2c74473..e9d114e 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,15 +92,23 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (sign >= 0 && value > MaxValue)
+			throw new OverflowException();
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			throw new OverflowException();
+		return (Int64) (sign < 0 ? 0 - value : value);
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
+			goodNumber = false;
+		if (sign >= 0 && value > MaxValue)
+			goodNumber = false;
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int64) value * sign;
+		result = goodNumber ? (Int64) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index c983f7f..93fc399 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -92,23 +92,23 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((SByte) value * sign);
+		return (SByte) ((Int64) value * sign);
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign >= 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		result = goodNumber ? (SByte) ((Int64) value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 31819dc..cac49ea 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,19 +92,19 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign < 0 || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) value);
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt16) value;
+		result = goodNumber ? (UInt16) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 28d498f..070dc56 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,19 +92,19 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign < 0 || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) value);
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt32) value;
+		result = goodNumber ? (UInt32) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 3802bb5..68d7dfb 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign <= 0)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -100,11 +100,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if (sign <= 0)
 			goodNumber = false;
-		result = (UInt64) value;
+		result = goodNumber ? (UInt64) value : 0;
 		return (goodNumber);
 	}
 	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
@@ -116,13 +116,14 @@ namespace DotnetLibrary
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
+		Boolean tooBig = false;
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
 			++source;
 			--sourceLength;
 		}
-		if (*source != 0 && sourceLength > 0) {
+		if (sourceLength > 0 && *source != 0) {
 			if (*source == L'-') {
 				sign = -1;
 				++source;
@@ -133,16 +134,29 @@ namespace DotnetLibrary
 				--sourceLength;
 			}
 		}
-		while (*source != 0 && sourceLength > 0) {
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = *source - L'0';
+			if (result > (MaxValue - digit) / 10)
+				tooBig = true;
+			else
+				result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
+		if (tooBig) {
+			result = MaxValue;
+			if (sign > 0)
+				sign = 0;
+		}
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 28aadd924b430d15d51343deb994465ccb2cdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 32/72] fix: parsing floating point numbers returns undefined
 values for null and malformed text

---
 DotNetLibrary/src/DoubleValue.cpp | 8 +++++---
 DotNetLibrary/src/SingleValue.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..1d7dac4 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,12 +137,14 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -157,13 +159,13 @@ namespace DotnetLibrary
 	Boolean DoubleValue::TryParseInternal(Char* source, Int32 sourceLength, Double& result) {
 		result = 0;
 		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
+		Double rtn = 0;
 		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
 		result = rtn;
 		return (gotNumber);
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..e0ed9e1 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,12 +144,14 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -164,13 +166,13 @@ namespace DotnetLibrary
 	Boolean SingleValue::TryParseInternal(Char* source, Int32 sourceLength, Single& result) {
 		result = 0;
 		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
+		Single rtn = 0;
 		gotNumber = swscanf(source, L"%G", &rtn) == 1;
 		result = rtn;
 		return (gotNumber);
-- 
2.43.0


From 9165e6b330710964af38f507235050262f0b25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 33/72] fix: TimeSpan.MaxValue is negative and MinValue is
 zero, so zero cannot be negated

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..2f7410c 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(Int64Value::MaxValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(Int64Value::MinValue);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From efbacb92a9638b8e0bd863187eb0d95307716596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 34/72] fix: TimeSpan.Subtract does not notice an overflow

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 2f7410c..a54ffd7 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -242,7 +242,7 @@ namespace DotnetLibrary
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
 		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From c0e662ebc71b003fd6761506603733670cc7e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 35/72] fix: TimeSpan scaling converts values one past the
 maximum and not-a-number to ticks

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index a54ffd7..95b8067 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -129,7 +129,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
+		if (ticks >= Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
@@ -212,7 +212,7 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
+		if ((ticks >= Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
 			throw new OverflowException();
 		return (Int64) ticks;
 	}
@@ -221,7 +221,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
+		if (ticks >= Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
-- 
2.43.0


From 6ef556e7f5ecb029a2bb2d5a3453d8ea2bfee96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 36/72] fix: TimeSpan text pads the fraction of a second on the
 wrong side

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 95b8067..f710cd5 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -185,8 +185,8 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From d45c71e873e089e61e7de3a95c820461f963b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 37/72] fix: TimeSpan parsing writes past its numbers,
 dereferences null and accepts text it cannot read

---
 DotNetLibrary/src/TimeSpanValue.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index f710cd5..79e206b 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -250,6 +250,9 @@ namespace DotnetLibrary
 		Int64 numbers[] = { 0, 0, 0, 0 };
 		Int32 amount = 0;
 		Int64 fractional = 0;
+		result = Zero;
+		if (s == nullptr)
+			return false;
 		Char* chars = s->get_Buffer();
 		Int32 length = s->get_Length();
 		Int32 sign;
@@ -259,14 +262,14 @@ namespace DotnetLibrary
 			++chars;
 			--length;
 		}
-		while (length > 0) {
+		while (length > 0 && amount < 4) {
 			UInt64 number;
 			Int32 digits = 1;
 			if (!CharValue::IsDigit(*chars))
 				break;
 			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
 				break;
-			if (CharValue::IsDigit(chars[1]))
+			if (length > 1 && CharValue::IsDigit(chars[1]))
 				digits = 2;
 			UInt64Value::TryParseInternal(chars, digits, number, sign);
 			numbers[amount++] = (Int64) number;
@@ -280,6 +283,8 @@ namespace DotnetLibrary
 			++chars;
 			--length;
 		}
+		if (amount == 0 || length > 0)
+			return false;
 		//for (; length > 0; --length) {
 		//	if (chars[length - 1] != L'0')
 		//		break;
-- 
2.43.0


From f3872c9323eacb6c5c559d9d998bc7ffdc29e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 38/72] fix: Math.Abs of integers overflows for the minimum and
 loses precision as a Double

---
 DotNetLibrary/include/DotNetMath.h |  8 ++++----
 DotNetLibrary/src/DotNetMath.cpp   | 30 +++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index 7a68592..cdccdea 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -48,25 +48,25 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int16 v1);
+		static Int16 Abs(Int16 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int32 v1);
+		static Int32 Abs(Int32 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int64 v1);
+		static Int64 Abs(Int64 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(SByte v1);
+		static SByte Abs(SByte v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..b744a8c 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -33,17 +33,25 @@ namespace DotnetLibrary
 	Double Math::Abs(Double v1) {
 		return fabs(v1);
 	}
-	Double Math::Abs(Int16 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int32 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(Int64 v1) {
-		return abs(v1);
-	}
-	Double Math::Abs(SByte v1) {
-		return abs(v1);
+	Int16 Math::Abs(Int16 v1) {
+		if (v1 == Int16Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int32 Math::Abs(Int32 v1) {
+		if (v1 == Int32Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	Int64 Math::Abs(Int64 v1) {
+		if (v1 == Int64Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
+	}
+	SByte Math::Abs(SByte v1) {
+		if (v1 == SByteValue::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
 	Double Math::Abs(Single v1) {
 		return fabs(v1);
-- 
2.43.0


From e39858496bd026f780bfa9d5b50d5fbc367e2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 39/72] fix: Math division traps for the minimum divided by -1,
 DivRem truncates 64 bit quotients

---
 DotNetLibrary/src/DotNetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index b744a8c..6480033 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -264,6 +264,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v1 == Int64Value::MinValue && v2 == -1)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -277,6 +279,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (a == Int32Value::MinValue && b == -1)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -284,7 +288,9 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		if (a == Int64Value::MinValue && b == -1)
+			throw new OverflowException();
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From e478a46f87ce7f08e2728eb52751e5be313dca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 40/72] fix: Math.ILogB converts infinity and not-a-number to
 an integer

---
 DotNetLibrary/src/DotNetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 6480033..2d923dc 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -313,7 +313,11 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		if (x == 0)
+			return Int32Value::MinValue;
+		if (DoubleValue::IsNaN(x))
+			return Int32Value::MaxValue;
+		return ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From 256cf592f97315c79b9e07bab8513e57168a0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 41/72] fix: DateTime accepts 1000 milliseconds and ignores the
 time when the hour is negative

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..2f01fc4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= 1000)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 31d80fcf6d3723fde36b7ee167b4e4dd48a9c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 42/72] fix: adding not-a-number to a DateTime converts it to
 ticks

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 2f01fc4..c0d52ac 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		if (DoubleValue::IsNaN(millis_double) || millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 652e5cd19b8fc1770fa272c0f77b606058cfb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 43/72] fix: DateTime.IsDaylightSavingTime reads an undefined
 flag

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index c0d52ac..9f47702 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -253,8 +253,9 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From c5a8083c2efc8650cd960313a487323698650c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 44/72] fix: DateTime text may overflow its buffer and shows
 noon as AM

---
 DotNetLibrary/src/DateTimeValue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 9f47702..082392e 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -272,15 +272,15 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12)
 			isPm = true;
-		}
+		if (hour > 12)
+			hour -= 12;
 		Char dateTime[128];
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From af3bbe5ab395fb48978370a85de15e1264cc6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 45/72] fix: DateTime time zone offset is a day off when the
 dates differ and ignores minutes

---
 DotNetLibrary/src/DateTimeValue.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 082392e..be4ef4e 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -313,9 +313,17 @@ namespace DotnetLibrary
 		time_t rawTime = time(nullptr);
 		struct tm* utcInfo = gmtime(&rawTime);
 		int gmHour = utcInfo->tm_hour;
+		int gmMinute = utcInfo->tm_min;
+		int gmDay = utcInfo->tm_yday;
 		struct tm* localInfo = localtime(&rawTime);
 		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
+		int days = localInfo->tm_yday - gmDay;
+		// the year may have changed between the two
+		if (days > 1)
+			days = -1;
+		else if (days < -1)
+			days = 1;
+		TimeSpan ts = TimeSpan(days * 24 + lcHour - gmHour, localInfo->tm_min - gmMinute, 0);
 		return ts;
 	}
 
-- 
2.43.0


From cc90561853861c049963189c2c45c6dd8eae34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 46/72] fix: formatting a character leaves its text
 unterminated

---
 DotNetLibrary/src/CharValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 59c671b..2e4b699 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -79,7 +79,8 @@ namespace DotnetLibrary
 	Int32 CharValue::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize < 2)
 			throw new IndexOutOfRangeException();
-		*where = value;
+		where[0] = value;
+		where[1] = 0;
 		return 1;
 	}
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
-- 
2.43.0


From d18202d7cac253d99e8e0a7af8241e9e5da63d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 47/72] fix: CharEnumerator accepts a null string and
 dereferences it later

---
 DotNetLibrary/src/CharEnumerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/CharEnumerator.cpp b/DotNetLibrary/src/CharEnumerator.cpp
index db32e2f..25d2fcb 100644
--- a/DotNetLibrary/src/CharEnumerator.cpp
+++ b/DotNetLibrary/src/CharEnumerator.cpp
@@ -20,6 +20,8 @@
 namespace DotnetLibrary
 {
 	CharEnumerator::CharEnumerator(String* str) {
+		if (str == nullptr)
+			throw new ArgumentNullException();
 		index = -1;
 		string = str;
 		currentElement = 0;
-- 
2.43.0


From e5139764922651893e0dcc9d630ad78e7320f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 48/72] fix: platform memory requests above 4 GB are truncated
 and cleared outside the pool

---
 PlatformSupport/PlatformSupport.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..d0ae707 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,9 +35,12 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
+	if (size > memorySize - memoryUsed)
+		return(nullptr);
 	uint32_t required = (uint32_t)size;
 	required = Align(required, sizeof(double));
 	if (memoryUsed + required > memorySize)
-- 
2.43.0


From 873d474d9ec705d7baa8d778602c90945bcee7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 49/72] fix: sending a null message, as for an exception
 without one, dereferences null

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..1ef3494 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -26,7 +26,10 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	if (message == nullptr)
+		printf("\n");
+	else
+		printf("%ls\n", message->get_Buffer());
 }
 
 /*!
-- 
2.43.0


From c9b4564932d594ab47ce1bc95bab3717dee13a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 50/72] fix: StringBuilder.Replace computed byte counts and the
 growth it needs in 32 bits

---
 DotNetLibrary/include/StringBuilder.h |  2 +-
 DotNetLibrary/src/StringBuilder.cpp   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index 33e4511..e11cad0 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -246,7 +246,7 @@ namespace DotnetLibrary
 		 * Grow buffer if not
 		 * @param amount needed
 		 */
-		void EnsureRoomFor(Int32 amount);
+		void EnsureRoomFor(Int64 amount);
 		/*!
 		 * Ensure we have this capacity
 		 * @param capacity needed
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 251c0f5..a15ac07 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -157,7 +157,7 @@ namespace DotnetLibrary
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
 		Int32 amount = 0;
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
-		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
+		size_t bytesToCompare = subString->get_Length() * sizeof(Char);
 		for (int i = startIndex; i < endIndex;) {
 			if (0 == memcmp(chunkChars + i, subString->get_Buffer(), bytesToCompare)) {
 				++amount;
@@ -324,11 +324,11 @@ namespace DotnetLibrary
 		set_Length(0);
 		return (this);
 	}
-	void StringBuilder::EnsureRoomFor(Int32 amount) {
+	void StringBuilder::EnsureRoomFor(Int64 amount) {
 		if (amount > maxCapacity - currentLength) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(currentLength + amount);
+		EnsureCapacity(currentLength + (Int32) amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
 		if (capacity < 0) {
@@ -514,7 +514,7 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
-			EnsureRoomFor(delta * howMany);
+			EnsureRoomFor((Int64) delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
 		return this;
@@ -522,7 +522,7 @@ namespace DotnetLibrary
 	void StringBuilder::ReplaceSubString(String* search, String* replace, const Int32 startIndex, const Int32 count) {
 		Int32 endIndex = startIndex + 1 + count - search->get_Length();
 		Int32 delta = replace->get_Length() - search->get_Length();
-		Int32 bytesToCompare = search->get_Length() * sizeof(Char);
+		size_t bytesToCompare = search->get_Length() * sizeof(Char);
 		for (int i = startIndex; i < endIndex;) {
 			if (0 == memcmp(chunkChars + i, search->get_Buffer(), bytesToCompare)) {
 				Int32 howMuchToMove = currentLength - i - search->get_Length();
-- 
2.43.0


From 6480a145e173fe114aa27a8ebd4e647a367a3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 51/72] fix: StringBuilder.AppendLine left part of the line
 behind when the line end did not fit

---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index a15ac07..48692a4 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -313,10 +313,12 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
+		EnsureRoomFor(2);
 		Append(L'\r');
 		return (Append(L'\n'));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		EnsureRoomFor((value == nullptr ? 0 : (Int64) value->get_Length()) + 2);
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From 9104c8c2630b8a97598d6d81b7a4c3efa048ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 52/72] fix: String.Join accepted a start index beyond the
 array when no count was given

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index eac7ff3..994e3a6 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -404,7 +404,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -431,7 +431,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 6a373a8e31fb8550a47348087dbbac9035dab2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 53/72] fix: a boxed floating point number was converted to
 integers that cannot hold it

---
 DotNetLibrary/src/DoubleValue.cpp | 12 ++++++++++++
 DotNetLibrary/src/SingleValue.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 1d7dac4..df7cc02 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -28,22 +28,34 @@ namespace DotnetLibrary
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
 	DLL_EXPORT Double DoubleValue::NegativeInfinity = -INFINITY;
+	// A value that the integer type cannot hold has no defined conversion
+	static void VerifyFits(Double value, Double above, Double below)
+	{
+		if (!(value > above && value < below))
+			throw new OverflowException();
+	}
 	Int16 DoubleValue::get_AsInt16() {
+		VerifyFits(value, -32769.0, 32768.0);
 		return (Int16) value;
 	}
 	UInt16 DoubleValue::get_AsUInt16() {
+		VerifyFits(value, -1.0, 65536.0);
 		return (UInt16) value;
 	}
 	Int32 DoubleValue::get_AsInt32() {
+		VerifyFits(value, -2147483649.0, 2147483648.0);
 		return (Int32) value;
 	}
 	UInt32 DoubleValue::get_AsUInt32() {
+		VerifyFits(value, -1.0, 4294967296.0);
 		return (UInt32) value;
 	}
 	Int64 DoubleValue::get_AsInt64() {
+		VerifyFits(value, -9223372036854777856.0, 9223372036854775808.0);
 		return (Int64) value;
 	}
 	UInt64 DoubleValue::get_AsUInt64() {
+		VerifyFits(value, -1.0, 18446744073709551616.0);
 		return (UInt64) value;
 	}
 	Single DoubleValue::get_AsSingle() {
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index e0ed9e1..cfd8392 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -35,22 +35,34 @@ namespace DotnetLibrary
 	//DLL_EXPORT Single	FloatValue::PositiveInfinity = INFINITY;
 	//DLL_EXPORT Single	FloatValue::NegativeInfinity = -INFINITY;
 
+	// A value that the integer type cannot hold has no defined conversion
+	static void VerifyFits(Single value, Double above, Double below)
+	{
+		if (!(value > above && value < below))
+			throw new OverflowException();
+	}
 	Int16 SingleValue::get_AsInt16() {
+		VerifyFits(value, -32769.0, 32768.0);
 		return (Int16) value;
 	}
 	UInt16 SingleValue::get_AsUInt16() {
+		VerifyFits(value, -1.0, 65536.0);
 		return (UInt16) value;
 	}
 	Int32 SingleValue::get_AsInt32() {
+		VerifyFits(value, -2147483649.0, 2147483648.0);
 		return (Int32) value;
 	}
 	UInt32 SingleValue::get_AsUInt32() {
+		VerifyFits(value, -1.0, 4294967296.0);
 		return (UInt32) value;
 	}
 	Int64 SingleValue::get_AsInt64() {
+		VerifyFits(value, -9223372036854777856.0, 9223372036854775808.0);
 		return (Int64) value;
 	}
 	UInt64 SingleValue::get_AsUInt64() {
+		VerifyFits(value, -1.0, 18446744073709551616.0);
 		return (UInt64) value;
 	}
 	Single SingleValue::get_AsSingle() {
-- 
2.43.0


From 6187802de2848f8c986d533ad2724fccd2b3fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 54/72] fix: Double.MaxValue and Double.MinValue are not the
 largest finite numbers

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index df7cc02..a8d1e44 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From b33c667cbf76e85a8f9dca3b7bb4c64b1f5b7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 55/72] fix: Math.PI and Math.E are not the nearest
 representable numbers

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 2d923dc..a75826a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -19,8 +19,8 @@
 #include <math.h>
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double Math::PI = 3.14159265358979;
-	DLL_EXPORT Double Math::E = 2.71828182845905;
+	DLL_EXPORT Double Math::PI = 3.14159265358979323846;
+	DLL_EXPORT Double Math::E = 2.71828182845904523536;
 	const UInt64 ExponentMask = 0x7FF0000000000000;
 	const Int32 ExponentShift = 52;
 	const Int32 ShiftedExponentMask = (Int32) (ExponentMask >> ExponentShift);
-- 
2.43.0


From 1ea0f22459ecae5ca2d30876ac7d9ff266199b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 56/72] fix: floating point division by zero loses the sign of
 infinity and NaN

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index a75826a..dda6dee 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -270,9 +270,9 @@ namespace DotnetLibrary
 	}
 	Double Math::Divide(Double v1, Double v2) {
 		if (v2 == 0) {
-			if (v1 == 0)
+			if (v1 == 0 || DoubleValue::IsNaN(v1))
 				return (DoubleValue::NaN);
-			return (DoubleValue::PositiveInfinity);
+			return (signbit(v1) != signbit(v2)) ? DoubleValue::NegativeInfinity : DoubleValue::PositiveInfinity;
 		}
 		return v1 / v2;
 	}
-- 
2.43.0


From 2a1969a4a12a542f5ad7f3533e839aaad8bd4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 57/72] fix: Math.FusedMultiplyAdd rounds twice

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index dda6dee..1ad383d 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -307,7 +307,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From 40bddb77e4bfb33c7c0b2b3c647a7027b5222c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 58/72] fix: handlers for ArgumentException and
 ArithmeticException miss the exceptions derived from them in .NET

---
 DotNetLibrary/include/Exception.h | 66 ++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..f3c8f52 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -93,39 +93,60 @@ namespace DotnetLibrary
 		}
 	};
 	/*!
-	 * Null argument exception
+	 * Bad Argument
 	 */
-	struct DLL_EXPORT ArgumentNullException: public Exception
+	struct DLL_EXPORT ArgumentException: public Exception
 	{
 	public:
-		ArgumentNullException() : Exception(new String(L"Arguement is null")) {
+		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		}
+		/*!
+		 * Exception with this message
+		 * @param msg message
+		 */
+		ArgumentException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * rank exception
+	 * Arithmetic exception
 	 */
-	struct DLL_EXPORT RankException: public Exception
+	struct DLL_EXPORT ArithmeticException: public Exception
 	{
 	public:
-		RankException() : Exception(new String(L"Rank exception")) {
+		ArithmeticException() : Exception(new String(L"Overflow")) {
+		}
+		/*!
+		 * Exception with this message
+		 * @param msg message
+		 */
+		ArithmeticException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * Argument out of range
+	 * Null argument exception
 	 */
-	struct DLL_EXPORT ArgumentOutOfRangeException: public Exception
+	struct DLL_EXPORT ArgumentNullException: public ArgumentException
 	{
 	public:
-		ArgumentOutOfRangeException() : Exception(new String(L"Arguement out of range")) {
+		ArgumentNullException() : ArgumentException(new String(L"Arguement is null")) {
 		}
 	};
 	/*!
-	 * Bad Argument
+	 * rank exception
 	 */
-	struct DLL_EXPORT ArgumentException: public Exception
+	struct DLL_EXPORT RankException: public Exception
 	{
 	public:
-		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		RankException() : Exception(new String(L"Rank exception")) {
+		}
+	};
+	/*!
+	 * Argument out of range
+	 */
+	struct DLL_EXPORT ArgumentOutOfRangeException: public ArgumentException
+	{
+	public:
+		ArgumentOutOfRangeException() : ArgumentException(new String(L"Arguement out of range")) {
 		}
 	};
 	/*!
@@ -167,37 +188,28 @@ namespace DotnetLibrary
 	/*!
 	 * Overflow
 	 */
-	struct DLL_EXPORT OverflowException: public Exception
+	struct DLL_EXPORT OverflowException: public ArithmeticException
 	{
 	public:
-		OverflowException() : Exception(new String(L"Overflow")) {
+		OverflowException() : ArithmeticException(new String(L"Overflow")) {
 		}
 	};
 	/*!
 	 * Max min exception
 	 */
-	struct DLL_EXPORT ThrowMinMaxException: public Exception
+	struct DLL_EXPORT ThrowMinMaxException: public ArgumentException
 	{
 	public:
-		ThrowMinMaxException() : Exception(new String(L"Overflow")) {
-		}
-	};
-	/*!
-	 * Arithmetic exception
-	 */
-	struct DLL_EXPORT ArithmeticException: public Exception
-	{
-	public:
-		ArithmeticException() : Exception(new String(L"Overflow")) {
+		ThrowMinMaxException() : ArgumentException(new String(L"Overflow")) {
 		}
 	};
 	/*!
 	 * Divide by Zero
 	 */
-	struct DLL_EXPORT DivideByZeroException: public Exception
+	struct DLL_EXPORT DivideByZeroException: public ArithmeticException
 	{
 	public:
-		DivideByZeroException() : Exception(new String(L"Divide by Zero")) {
+		DivideByZeroException() : ArithmeticException(new String(L"Divide by Zero")) {
 		}
 	};
 }
-- 
2.43.0


From 167d2403613ebab9b9de9bfd4933ba8eb9c1a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 59/72] fix: Exception.GetBaseException is null without an
 inner exception and stops after one step

---
 DotNetLibrary/include/Exception.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index f3c8f52..d5fd3db 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -73,7 +73,10 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr)
+				base = base->innerException;
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From e282e16afa0ed4181ef3977b2afb698ca65f4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 60/72] fix: BitConverter.ToChar turns characters above 0x7FFF
 into negative ones

---
 DotNetLibrary/src/BitConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 09e164d..e50cfc5 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
+		UInt16 ret;
 		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 24a75de135bf3864041db1143f3270fd9c58e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 61/72] fix: time spans of 100 days and more, and fractions of
 one or two digits, were not read back from text

---
 DotNetLibrary/src/TimeSpanValue.cpp | 74 +++++++++++++++++------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 79e206b..5ce6751 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -255,55 +255,67 @@ namespace DotnetLibrary
 			return false;
 		Char* chars = s->get_Buffer();
 		Int32 length = s->get_Length();
-		Int32 sign;
 		Boolean negate = false;
 		if (*chars == L'-') {
 			negate = true;
 			++chars;
 			--length;
 		}
+		// [-]days, or [-][days. or days:]hours:minutes[:seconds[.fraction]]
+		Boolean hasDays = false;
+		Boolean hasFraction = false;
 		while (length > 0 && amount < 4) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
+			Int32 digits = 0;
+			Int64 number = 0;
+			while (digits < length && CharValue::IsDigit(chars[digits])) {
+				number = number * 10 + (Int64) (chars[digits] - L'0');
+				if (number > MaxValue.value / TicksPerDay)
+					return false;
+				++digits;
+			}
+			if (digits == 0 || (amount > 0 && digits > 2))
+				return false;
+			numbers[amount++] = number;
+			chars += digits;
+			length -= digits;
+			if (length == 0)
 				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
+			if (*chars == L'.' && amount == 1)
+				hasDays = true;
+			else if (*chars == L'.' && (amount == 4 || (amount == 3 && !hasDays)))
+				hasFraction = true;
+			else if (*chars != L':' || amount == 4)
+				return false;
+			++chars;
+			--length;
+			if (hasFraction)
 				break;
-			if (length > 1 && CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
+			if (length == 0)
+				return false;
 		}
+		if (amount == 0 || (hasDays && amount < 3) || (hasFraction && length == 0))
+			return false;
+		if (amount == 4 || amount == 1)
+			hasDays = true;
 		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
+		while (hasFraction && frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
 			frac /= 10;
 			fractional += (Int64) (*chars - L'0') * frac;
 			++chars;
 			--length;
 		}
-		if (amount == 0 || length > 0)
+		if (length > 0)
 			return false;
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
-		Int64 days = 0;
 		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
+		Int64 days = 0;
+		if (hasDays)
+			days = numbers[index++] * TicksPerDay;
+		Int64 time = fractional;
+		for (Int64 unit = TicksPerHour; index < amount; ++index, unit /= 60)
+			time += numbers[index] * unit;
+		if (time - (negate ? 1 : 0) > MaxValue.value - days)
+			return false;
+		result = negate ? -days - time : days + time;
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From ea7bdee9fa7c8a1e71eef6e330cd87f78289ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 62/72] fix: String::Compare was no order: upper case after
 every lower case letter, but characters between them in code order (Z > a > [
 > Z)

---
 DotNetLibrary/src/StringDotNet.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 994e3a6..e39696b 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -128,10 +128,13 @@ namespace DotnetLibrary
 				c1 = *str1++;
 				c2 = *str2++;
 				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
+					// order by letter first, lower case comes before upper case of the same letter
+					Char lower1 = towlower(c1);
+					Char lower2 = towlower(c2);
+					if (lower1 != lower2)
+						return lower1 > lower2 ? 1 : -1;
+					if (c1 != c2)
+						return c1 < c2 ? 1 : -1;
 				}
 			}
 			if (c1 != c2)
-- 
2.43.0


From 33472aa06b0e3ff1eae2574cf5e255e701783a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 63/72] fix: CharValue::IsPunctuation counted the symbols $ + <
 = > ^ ` | ~ as punctuation

---
 DotNetLibrary/src/CharValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 2e4b699..f493006 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -152,7 +152,8 @@ namespace DotnetLibrary
 		return IsDigit(v, index);
 	}
 	Boolean CharValue::IsPunctuation(Char v) {
-		return (iswpunct(v));
+		// iswpunct also accepts the symbols, which are no punctuation
+		return (iswpunct(v) && v != '$' && v != '+' && v != '<' && v != '=' && v != '>' && v != '^' && v != '`' && v != '|' && v != '~');
 	}
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From ae547f17befe12bfdd0f5cb91ad8d771c298d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 64/72] fix: CharValue::IsSeparator accepted tabs, line breaks
 and other control characters

---
 DotNetLibrary/src/CharValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index f493006..65d7e73 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -163,7 +163,9 @@ namespace DotnetLibrary
 		return (IsPunctuation(v->get_Chars(index)));
 	}
 	Boolean CharValue::IsSeparator(Char v) {
-		return IsWhiteSpace(v);
+		// spaces and the line and paragraph separators, but no control characters
+		return v == 0x20 || v == 0xA0 || v == 0x1680 || (v >= 0x2000 && v <= 0x200A) || v == 0x2028 || v == 0x2029 || v == 0x202F
+			|| v == 0x205F || v == 0x3000;
 	}
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
-- 
2.43.0


From 52b38f81f14d21b518a4b6c5ed29759e8f6de248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 65/72] fix: Math.Abs of a Single returned a Double

---
 DotNetLibrary/include/DotNetMath.h | 2 +-
 DotNetLibrary/src/DotNetMath.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index cdccdea..e174d48 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Single v1);
+		static Single Abs(Single v1);
 		/*!
 		 * Cosine of number
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 1ad383d..922a352 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -53,7 +53,7 @@ namespace DotnetLibrary
 			throw new OverflowException();
 		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(Single v1) {
+	Single Math::Abs(Single v1) {
 		return fabs(v1);
 	}
 	Double Math::Acos(Double v1) {
-- 
2.43.0


From aacb3719b6bb6e8ccfa3b5ec5b16f29106c3655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 66/72] fix: range errors of String searches, copies and joins
 were reported as null arguments, null search text as a range error

---
 DotNetLibrary/src/StringBuilder.cpp |  2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 40 ++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 48692a4..ad422c6 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -502,7 +502,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		if (search == nullptr) {
-			throw new ArgumentOutOfRangeException();
+			throw new ArgumentNullException();
 		}
 		if (search->get_Length() == 0) {
 			throw new ArgumentOutOfRangeException();
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e39696b..8b8b251 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -188,7 +188,7 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
 			sb.Append(*(Object**) values->Address(i));
@@ -231,15 +231,15 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		destination->EnsureSingleDimension();
 		if (destination->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - sourceIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count == 0)
 			return;
 		Char* source = Address(sourceIndex);
@@ -311,9 +311,9 @@ namespace DotnetLibrary
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex + count;
 		for (Int32 index = startIndex; index < endIndex; ++index) {
 			if (get_Chars(index) == value)
@@ -335,9 +335,9 @@ namespace DotnetLibrary
 		if (value == nullptr)
 			throw new ArgumentNullException();
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
 		if (found == nullptr)
 			return (-1);
@@ -359,12 +359,12 @@ namespace DotnetLibrary
 		if (arr == nullptr)
 			throw new ArgumentNullException();
 		if (startIndex < 0 || count < 0)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		Int32 endIndex = startIndex + count;
 		for (Int32 index = startIndex; index < endIndex; ++index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
@@ -406,13 +406,13 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (startIndex < 0 || startIndex > values->get_Length())
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
 		if (count > values->get_Length() - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = count + startIndex;
 		StringBuilder sb;
 		Boolean isFirst = true;
@@ -433,13 +433,13 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		if (startIndex < 0 || startIndex > values->get_Length())
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
 		if (count > values->get_Length() - startIndex)
-			throw new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = count + startIndex;
 		StringBuilder sb;
 		Boolean isFirst = true;
@@ -496,7 +496,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
-			throw new ArgumentNullException();
+			throw new ArgumentException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From a878aa16d7fdfad2503a86f7628be608af6f0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 67/72] fix: searching for text stopped at null characters
 inside the string

---
 DotNetLibrary/src/StringDotNet.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8b8b251..26b364b 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -338,12 +338,12 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
 			throw new ArgumentOutOfRangeException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex - value->get_Length() ? -1 : delta);
+		Int32 lastIndex = startIndex + count - value->get_Length();
+		for (Int32 index = startIndex; index <= lastIndex; ++index) {
+			if (memcmp(get_Buffer() + index, value->get_Buffer(), value->get_Length() * sizeof(Char)) == 0)
+				return (index);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
@@ -476,12 +476,9 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta == i && delta <= startIndex + 1 - value->get_Length())
-					return (delta);
-			}
+			if (i <= startIndex + 1 - value->get_Length()
+				&& memcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length() * sizeof(Char)) == 0)
+				return (i);
 		}
 		return -1;
 	}
-- 
2.43.0


From e9e926e4e7329589ccd997dbd7dff6d962fa78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 68/72] fix: the null character had no text: ToString raised an
 exception

---
 DotNetLibrary/src/Object.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 11678e2..6ea83f3 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -38,8 +38,7 @@ namespace DotnetLibrary
 	String* Object::ToString() {
 		Char chars[128];
 		Int32 length = FormatString(chars, 128);
-		chars[length] = 0;
-		return (new String(chars, 0, length));
+		return (String::FromBuffer(chars, length));
 	}
 	Int32 Object::FormatString(Char* where, const Int32 whereSize) {
 		CopyChars(where, whereSize, (Char*) L"Object", 6);
-- 
2.43.0


From 648ba1f2ccd83813db72bcfaf8d33660568d6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 69/72] fix: parsing floating point numbers accepted any
 trailing text and hexadecimal digits

---
 DotNetLibrary/src/DoubleValue.cpp | 13 +++++++++++--
 DotNetLibrary/src/SingleValue.cpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index a8d1e44..b6560ee 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -178,8 +178,17 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Double rtn = 0;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
+		Char* end = source;
+		// a hexadecimal number is no number here
+		Char* digits = source + (*source == L'-' || *source == L'+' ? 1 : 0);
+		if (digits[0] != L'0' || (digits[1] != L'x' && digits[1] != L'X'))
+			rtn = wcstod(source, &end);
+		gotNumber = end != source;
+		// nothing but white space may follow
+		for (sourceLength -= (Int32) (end - source); gotNumber && sourceLength > 0; --sourceLength)
+			gotNumber = CharValue::IsWhiteSpace(*end++);
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index cfd8392..5d24e68 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -185,8 +185,17 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Single rtn = 0;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
+		Char* end = source;
+		// a hexadecimal number is no number here
+		Char* digits = source + (*source == L'-' || *source == L'+' ? 1 : 0);
+		if (digits[0] != L'0' || (digits[1] != L'x' && digits[1] != L'X'))
+			rtn = wcstof(source, &end);
+		gotNumber = end != source;
+		// nothing but white space may follow
+		for (sourceLength -= (Int32) (end - source); gotNumber && sourceLength > 0; --sourceLength)
+			gotNumber = CharValue::IsWhiteSpace(*end++);
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
-- 
2.43.0


From 15dde1ff0751c6cd77300566a7c3c067885d16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 70/72] fix: parsing a Boolean did not ignore white space
 around it

---
 DotNetLibrary/src/BooleanValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DotNetLibrary/src/BooleanValue.cpp b/DotNetLibrary/src/BooleanValue.cpp
index 00aba1b..f769f80 100644
--- a/DotNetLibrary/src/BooleanValue.cpp
+++ b/DotNetLibrary/src/BooleanValue.cpp
@@ -105,6 +105,7 @@ namespace DotnetLibrary
 	Boolean BooleanValue::Parse(String* stringToParse) {
 		if (stringToParse == nullptr)
 			throw new ArgumentException();
+		stringToParse = stringToParse->Trim();
 		if (String::Compare(stringToParse, TrueString, true) == 0) {
 			return true;
 		}
-- 
2.43.0


From 0c1ac2fc4ba25659b0ec37b29c7cfcf517ed4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 71/72] fix: unsigned integers rejected the text of negative
 zero

---
 DotNetLibrary/src/UInt64Value.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 68d7dfb..e517215 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -157,6 +157,8 @@ namespace DotnetLibrary
 			if (sign > 0)
 				sign = 0;
 		}
+		else if (result == 0)
+			sign = 1;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 8a25fba6879914fed561ddf893e9167af97ade4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:55 +0000
Subject: [PATCH 72/72] fix: the text of a floating point number keeps all its
 significant digits

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 DotNetLibrary/src/SingleValue.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index b6560ee..8013ce9 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -139,9 +139,9 @@ namespace DotnetLibrary
 	}
 	Int32 DoubleValue::FormatString(Char* where, const Int32 whereSize) {
 #ifdef __MINGW32__
-		return(swprintf(where, L"%G", value));
+		return(swprintf(where, L"%.15G", value));
 #else
-		return (swprintf(where, whereSize, L"%G", value));
+		return (swprintf(where, whereSize, L"%.15G", value));
 #endif
 	}
 	Double DoubleValue::Modulus(Double v1, Double v2) {
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 5d24e68..9b5904e 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -146,9 +146,9 @@ namespace DotnetLibrary
 	}
 	Int32 SingleValue::FormatString(Char* where, const Int32 whereSize) {
 #ifdef __MINGW32__
-		return(swprintf(where, L"%G", value));
+		return(swprintf(where, L"%.7G", value));
 #else
-		return (swprintf(where, whereSize, L"%G", value));
+		return (swprintf(where, whereSize, L"%.7G", value));
 #endif
 	}
 	Single SingleValue::Modulus(Single v1, Single v2) {
-- 
2.43.0

