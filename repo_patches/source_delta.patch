From a8a75a219038daace5061934d5982615b16400da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 01/30] fix: dictionary assertion rejected the smallest symbol

Dictionary::symbol() asserted iter > begin(), but lower_bound() returns
begin() for every value at or below the first level, which is a valid
symbol (0). Any build with assertions enabled aborted on such a value.
---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From e18607d0547266dc679a37cfa809c5e1eb98d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 02/30] fix: accept the distribution name that
 dataManagerSpec() writes

dataManagerSpec() describes a Student T manager as "StudentsT", but the
constructor that takes a specification only knew "StudentT". Therefore a
copy of such a table (e.g. Table::deepCopy(), as used by dscompress
-reorder) threw an exception.
---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..a493b11 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -85,7 +85,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentT" || str == "StudentsT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From f1d2e2058b0aef1f447d0aba267fa67c2fa2f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 03/30] fix: UVector copy assignment kept the old size

When the source fitted in the capacity of the destination, the elements
were copied without updating the size of the destination.
---
 uvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index f9dadd1..442550a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -934,9 +934,9 @@ class UVector : private Alloc {
       iterator newStorage = allocate(n);
       deallocate();
       _begin = newStorage;
-      _end = _begin + n;
-      _endOfStorage = _end;
+      _endOfStorage = _begin + n;
     }
+    _end = _begin + n;
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
   }
-- 
2.43.0


From f8105475e5e401becfa5531c34fb74f2dcee1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 04/30] fix: reject unsupported bit rates before any data is
 written

A manager with a bit rate that can not be packed (e.g. 5) was accepted,
after which the exception from BytePacker::pack() inside an encoding
thread terminated the process. dscompress had by then already renamed the
column.
---
 bytepacker.h  | 19 +++++++++++++++++++
 dscompress.cc |  5 +++++
 dyscostman.cc |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..e0e04f0 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -139,6 +139,25 @@ class BytePacker {
    */
   static void pack16(unsigned char *dest, const unsigned *symbolBuffer,
                      size_t symbolCount);
+  /**
+   * Whether @ref pack() and @ref unpack() support the given bit count.
+   */
+  static bool isSupported(unsigned bitCount) {
+    switch (bitCount) {
+      case 2:
+      case 3:
+      case 4:
+      case 6:
+      case 8:
+      case 10:
+      case 12:
+      case 16:
+        return true;
+      default:
+        return false;
+    }
+  }
+
   /**
    * Reverse of pack16(). Will write symbolCount items into the symbolBuffer.
    */
diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..3016c5e 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -1,3 +1,4 @@
+#include "bytepacker.h"
 #include "dyscodistribution.h"
 #include "dysconormalization.h"
 #include "dyscostman.h"
@@ -178,6 +179,10 @@ int main(int argc, char *argv[]) {
     ++argi;
   }
 
+  if (!BytePacker::isSupported(bitsPerFloat) ||
+      !BytePacker::isSupported(bitsPerWeight))
+    throw std::runtime_error("Unsupported bit rate");
+
   if (columnNames.empty()) columnNames.push_back("DATA");
   std::string msPath = argv[argi];
 
diff --git a/dyscostman.cc b/dyscostman.cc
index a493b11..874d1cc 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -1,4 +1,5 @@
 #include "dyscostman.h"
+#include "bytepacker.h"
 #include "dyscodatacolumn.h"
 #include "dyscostmancol.h"
 #include "dyscostmanerror.h"
@@ -358,6 +359,10 @@ void DyscoStMan::prepare() {
 
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(col.get());
+    const unsigned bitCount = dataCol ? _dataBitCount : _weightBitCount;
+    if (!BytePacker::isSupported(bitCount))
+      throw DyscoStManError("Unsupported bit rate: " +
+                            std::to_string(bitCount));
     if (dataCol)
       dataCol->SetBitsPerSymbol(_dataBitCount);
     else {
-- 
2.43.0


From 5da86184a8b0c6c69d9a7d591584b0aa1839a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 05/30] fix: return and update rows that are not in the file
 yet

getValues() returned nothing (leaving the array as it was) for rows of a
block that was still in the buffer of the current block or in the write
cache, when the file did not yet have that block. Similarly, putValues()
loaded a block without waiting for a previous version of it that was
still in the write cache, by which earlier written rows of it were lost.
---
 threadeddyscocolumn.cc | 64 +++++++++++++++++++++---------------------
 threadeddyscocolumn.h  |  1 +
 timeblockbuffer.h      |  5 ++++
 3 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..c424c29 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -75,8 +75,17 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
   _shape = shape;
 }
 
+// Wait until the given block is not in the write cache
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  waitUntilStored(blockIndex);
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -106,40 +115,31 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
-  if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
-  } else {
-    size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
-
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
-      }
-
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
+  // Make sure array storage is contiguous.
+  casacore::Bool deleteIt;
+  DataType* dataPtr = dataArr->getStorage (deleteIt);
+  // As long as the offsets are not known, all rows that were written are in
+  // the buffer of the first block.
+  const bool hasOffsets = areOffsetsInitialized();
+  const size_t blockIndex = hasOffsets ? getBlockIndex(rowNr) : 0,
+               blockRow = hasOffsets ? getRowWithinBlock(rowNr) : rowNr;
+
+  if (hasOffsets && _currentBlock != blockIndex) {
+    waitUntilStored(blockIndex);
+    if (blockIndex < nBlocksInFile()) {
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
     }
   }
+
+  if (_currentBlock == blockIndex && _timeBlockBuffer->HasRow(blockRow)) {
+    // The time block buffer contains the unpacked block.
+    _timeBlockBuffer->GetData(blockRow, dataPtr);
+  } else {
+    // Trying to read a row that was not stored yet -- return zero
+    std::fill_n(dataPtr, dataArr->nelements(), DataType());
+  }
+  dataArr->putStorage (dataPtr, deleteIt);
 }
 
 template <typename DataType>
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..456cbde 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -199,6 +199,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  void waitUntilStored(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..8b8f5e7 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -44,6 +44,11 @@ class TimeBlockBuffer {
            sizeof(data_t) * _data[blockRow].visibilities.size());
   }
 
+  /** Whether values were set for the given row. */
+  bool HasRow(size_t blockRow) const {
+    return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From 08da42ecad54c23d197c9c2ba081f4f6bc0409c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 06/30] fix: handle blocks that have not been written
 completely

- A block of which not all rows were written was encoded from rows
  without values (reading past their end), from rows that were left behind
  by the previously written block, or not at all, leaving uninitialized
  values in the file.
- When the last block had data for some of the columns only, it was not
  counted when the file was opened again, and its data was lost.
- Reading a column without data in the last block returned old contents
  of the read buffer.
- The last block could not be read when the table does not have all rows
  of it.
---
 dyscostman.cc          |  7 ++++++-
 threadeddyscocolumn.cc | 11 +++++++++--
 timeblockbuffer.h      |  6 ++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 874d1cc..b961d5e 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -7,6 +7,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -299,8 +301,10 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
+  // The last block is incomplete if not all columns have been written to it.
   if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
@@ -430,6 +434,7 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
     if (blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
+    std::fill(dest + _fStream->gcount(), dest + size, 0);
     _fStream->clear();  // reset fail bit
   }
 }
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index c424c29..1a340c7 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -100,13 +100,18 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     float *metaData = reinterpret_cast<float *>(_packedBlockReadBuffer.data());
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
+    const uint64_t nTableRows = _ant1Col->nrow();
     _timeBlockBuffer->resize(nRows);
     for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
-      int a1 = (*_ant1Col)(startRow + blockRow),
-          a2 = (*_ant2Col)(startRow + blockRow);
+      // The table might not have all the rows of its last block
+      const bool hasRow = startRow + blockRow < nTableRows;
+      int a1 = hasRow ? (*_ant1Col)(startRow + blockRow) : 0,
+          a2 = hasRow ? (*_ant2Col)(startRow + blockRow) : 0;
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
@@ -144,6 +149,8 @@ void ThreadedDyscoColumn<DataType>::getValues(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::storeBlock() {
+  // Encoding requires a full block: rows that were not written become zero
+  _timeBlockBuffer->FillMissingRows(nRowsInBlock());
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 8b8f5e7..b9e5642 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -49,6 +49,12 @@ class TimeBlockBuffer {
     return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
   }
 
+  /** Fill the rows that were not set with zeros, up to the given row count. */
+  void FillMissingRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) row.visibilities.resize(_nPol * _nChannels);
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From 690cb0366bc5ccc0a066eaf0eba0e8632d9a8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 07/30] fix: store tables with less than two time blocks

Closing a table of which only the first time block was written terminated
the process, because the block size was only determined once a second time
block was written. A table without any values could be created, but not
be opened again.
---
 dyscostman.cc         | 12 +++++++++++-
 dyscostmancol.h       |  7 +++++++
 threadeddyscocolumn.h |  8 ++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index b961d5e..c0d41f3 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -112,6 +112,15 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
 }
 
 void DyscoStMan::makeEmpty() {
+  // If only one time block was written, nothing could be stored yet.
+  if (!areOffsetsInitialized()) {
+    size_t nRows = 0, nAntennas = 0;
+    for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+      nRows = std::max(nRows, col->PendingRowCount());
+      nAntennas = std::max(nAntennas, col->PendingAntennaCount());
+    }
+    if (nRows != 0) initializeRowsPerBlock(nRows, nAntennas, true);
+  }
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     col->shutdown();
   }
@@ -176,6 +185,7 @@ void DyscoStMan::create(casacore::uInt nRow) {
     throw DyscoStManError("I/O error: could not create new file '" +
                           fileName() + "'");
   _nBlocksInFile = 0;
+  writeHeader();
 }
 
 void DyscoStMan::writeHeader() {
@@ -302,7 +312,7 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
   // The last block is incomplete if not all columns have been written to it.
-  if (size > _headerSize)
+  if (size > _headerSize && areOffsetsInitialized())
     _nBlocksInFile =
         (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..d23eaf1 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -36,6 +36,13 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** To be called before destructing the class. */
   virtual void shutdown() = 0;
 
+  /**
+   * Number of rows and antennas in the values that have been set, but not yet
+   * given to the encoding threads. Zero when there are no such values.
+   */
+  virtual size_t PendingRowCount() const = 0;
+  virtual size_t PendingAntennaCount() const = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 456cbde..18cc1bc 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -105,6 +105,14 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
    */
   virtual void InitializeAfterNRowsPerBlockIsKnown() override;
 
+  virtual size_t PendingRowCount() const final override {
+    return _isCurrentBlockChanged ? _timeBlockBuffer->NRows() : 0;
+  }
+
+  virtual size_t PendingAntennaCount() const final override {
+    return _isCurrentBlockChanged ? _timeBlockBuffer->MaxAntennaIndex() + 1 : 0;
+  }
+
   /**
    * Set the bits per symbol. Should only be called by DyscoStMan.
    * @param bitsPerSymbol New number of bits per symbol.
-- 
2.43.0


From d9517e6d805f163a064e6506946a096c3e39d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 08/30] fix: reject corrupted files when opening them

Opening a file with inconsistent values in its header ended in a division
by zero, reading outside buffers or an attempt to allocate gigabytes of
memory.
---
 dyscostman.cc  | 21 +++++++++++++++++++++
 serializable.h | 29 ++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index c0d41f3..22a22f5 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -253,6 +253,12 @@ void DyscoStMan::readHeader() {
     throw DyscoStManError(s.str());
   }
 
+  if (header.distribution > TruncatedGaussianDistribution ||
+      header.normalization > static_cast<uint8_t>(Normalization::kRow))
+    throw DyscoStManError("File '" + fileName() +
+                          "' has an unknown distribution or normalization -- "
+                          "is the file corrupted?");
+
   if (columnCount != _columns.size()) {
     std::stringstream s;
     s << "The column count in the DyscoStMan file (" << columnCount
@@ -269,6 +275,9 @@ void DyscoStMan::readHeader() {
     col.UnserializeExtraHeader(*_fStream);
     curColumnHeaderOffset += cHeader.columnHeaderSize;
   }
+  if (_fStream->fail() || (areOffsetsInitialized() && _blockSize == 0))
+    throw DyscoStManError("I/O error: could not read the header of file '" +
+                          fileName() + "' -- is the file corrupted?");
 }
 
 void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
@@ -387,6 +396,18 @@ void DyscoStMan::prepare() {
                  _distributionTruncation);
   }
 
+  // The block size in the header of an existing file should match with the
+  // columns. This is checked before any buffers are allocated.
+  if (areOffsetsInitialized()) {
+    uint64_t blockSize = 0;
+    for (const std::unique_ptr<DyscoStManColumn> &col : _columns)
+      blockSize += col->CalculateBlockSize(_rowsPerBlock, _antennaCount);
+    if (blockSize != _blockSize)
+      throw DyscoStManError("The block size of file '" + fileName() +
+                            "' does not match with its columns -- is the file "
+                            "corrupted?");
+  }
+
   // In case this is a new measurement set, we do not know the rowsPerBlock yet
   // If this measurement set is opened, we do know it, and we have to call
   // initializeRowsPerBlock() to let the columns know this value.
diff --git a/serializable.h b/serializable.h
index 172885d..7b80d73 100644
--- a/serializable.h
+++ b/serializable.h
@@ -1,6 +1,7 @@
 #ifndef DYSCO_SERIALIZABLE_H
 #define DYSCO_SERIALIZABLE_H
 
+#include <algorithm>
 #include <complex>
 #include <iostream>
 
@@ -106,25 +107,31 @@ class Serializable {
   }
 
   static void UnserializeString(std::istream &stream, std::string &destStr) {
-    size_t size = UnserializeUInt64(stream);
-    char *str = new char[size];
-    stream.read(str, size);
-    destStr = std::string(str, size);
-    delete[] str;
+    readString(stream, destStr, UnserializeUInt64(stream));
   }
 
   static void Unserialize32bString(std::istream &stream, std::string &destStr) {
-    size_t size = UnserializeUInt32(stream);
-    char *str = new char[size];
-    stream.read(str, size);
-    destStr = std::string(str, size);
-    delete[] str;
+    readString(stream, destStr, UnserializeUInt32(stream));
   }
 
  private:
+  // The size might be wrong when the file is corrupted, so don't allocate it
+  // before knowing that the stream has that much data.
+  static void readString(std::istream &stream, std::string &destStr,
+                         uint64_t size) {
+    constexpr uint64_t kChunkSize = 4096;
+    destStr.clear();
+    while (size != 0 && stream) {
+      char buffer[kChunkSize];
+      stream.read(buffer, std::min(size, kChunkSize));
+      destStr.append(buffer, stream.gcount());
+      size -= stream.gcount();
+    }
+  }
+
   template <typename T>
   static T Unserialize(std::istream &stream) {
-    T val;
+    T val = T();
     stream.read(reinterpret_cast<char *>(&val), sizeof(val));
     return val;
   }
-- 
2.43.0


From 245e9db2d38a77fc43ca85cdd3b5e47554a28586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 09/30] fix: reject distribution parameters that can not be
 used

With e.g. a truncation of zero, all levels were zero and the data was
lost. For several values of nu, gsl aborts the process or the levels are
not finite. This happened both for the settings given by a user and for
settings read from a file.
---
 dscompress.cc |  1 +
 dyscostman.cc | 21 +++++++++++++++++++--
 dyscostman.h  |  8 ++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 3016c5e..fc5ed0d 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -182,6 +182,7 @@ int main(int argc, char *argv[]) {
   if (!BytePacker::isSupported(bitsPerFloat) ||
       !BytePacker::isSupported(bitsPerWeight))
     throw std::runtime_error("Unsupported bit rate");
+  DyscoStMan::CheckDistribution(distribution, 1.0, distributionTruncation);
 
   if (columnNames.empty()) columnNames.push_back("DATA");
   std::string msPath = argv[argi];
diff --git a/dyscostman.cc b/dyscostman.cc
index 22a22f5..d8102fe 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -372,6 +372,22 @@ void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 
 void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
 
+void DyscoStMan::CheckDistribution(DyscoDistribution distribution,
+                                   double studentTNu,
+                                   double distributionTruncation) {
+  // Outside these ranges the quantization levels are not finite or not
+  // distinct. The conditions are such that they do not hold for NaNs.
+  if (distribution == StudentsTDistribution &&
+      !(studentTNu >= 0.2 && studentTNu <= 1e12))
+    throw DyscoStManError("Unsupported degrees of freedom for Student's "
+                          "t-distribution: " +
+                          std::to_string(studentTNu));
+  if (distribution == TruncatedGaussianDistribution &&
+      !(distributionTruncation >= 1e-3))
+    throw DyscoStManError("Unsupported truncation for distribution: " +
+                          std::to_string(distributionTruncation));
+}
+
 void DyscoStMan::prepare() {
   std::lock_guard<std::mutex> lock(_mutex);
 
@@ -386,9 +402,10 @@ void DyscoStMan::prepare() {
     if (!BytePacker::isSupported(bitCount))
       throw DyscoStManError("Unsupported bit rate: " +
                             std::to_string(bitCount));
-    if (dataCol)
+    if (dataCol) {
+      CheckDistribution(_distribution, _studentTNu, _distributionTruncation);
       dataCol->SetBitsPerSymbol(_dataBitCount);
-    else {
+    } else {
       DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(col.get());
       if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
     }
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..4b312f5 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -124,6 +124,14 @@ class DyscoStMan : public casacore::DataManager {
 
   void SetStaticSeed(bool staticSeed) { _staticSeed = staticSeed; }
 
+  /**
+   * Check that a quantization can be made for the given distribution settings.
+   * @throws DyscoStManError when this is not the case.
+   */
+  static void CheckDistribution(DyscoDistribution distribution,
+                                double studentTNu,
+                                double distributionTruncation);
+
   /**
    * This constructor is called by Casa when it needs to create a DyscoStMan.
    * Casa will call makeObject() that will call this constructor.
-- 
2.43.0


From 681cbadbf590597c9a1e711bd00e47661ddf4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 10/30] fix: refuse to add a column when data is waiting to be
 written

Values that were set, but not yet written to the file, were silently lost
when a column was added, or adding the column never finished because the
encoding threads could not get the lock to write them.
---
 dyscostman.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index d8102fe..91c4c55 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -445,7 +445,10 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+  bool hasData = areOffsetsInitialized() || nBlocksInFile() != 0;
+  for (const std::unique_ptr<DyscoStManColumn> &col : _columns)
+    hasData = hasData || col->PendingRowCount() != 0;
+  if (hasData)
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
-- 
2.43.0


From 463968c4dceba4c7b92a26593568a8e7e379f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 11/30] fix: refuse antennas and rows that do not fit in the
 blocks

With AF normalization, a row with an antenna index that was not present
in the first time block caused the factors of the antennas to be accessed
out of bounds. The same happened for values that were written in another
order than required.
When a block could not be read, its partially decoded values were
returned for another block.
---
 dyscodatacolumn.h      |  4 ++++
 dyscostman.cc          | 10 ++++++++++
 threadeddyscocolumn.cc | 31 +++++++++++++++++++++++++++----
 threadeddyscocolumn.h  |  4 ++++
 4 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/dyscodatacolumn.h b/dyscodatacolumn.h
index 7c310a7..53daf9f 100644
--- a/dyscodatacolumn.h
+++ b/dyscodatacolumn.h
@@ -70,6 +70,10 @@ class DyscoDataColumn final : public ThreadedDyscoColumn<std::complex<float>> {
 
   virtual size_t defaultThreadCount() const override;
 
+  virtual bool hasAntennaValues() const override {
+    return _normalization == Normalization::kAF;
+  }
+
  private:
   struct ThreadData final : public ThreadDataBase {
     ThreadData(std::unique_ptr<TimeBlockEncoder> timeBlockEncoder)
diff --git a/dyscostman.cc b/dyscostman.cc
index 91c4c55..87206f3 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -289,6 +289,16 @@ void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
         "initializeRowsPerBlock() called with two different "
         "values; something is wrong");
 
+  if (!areOffsetsInitialized()) {
+    // Other columns might have values that were not written by this column
+    for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+      antennaCount = std::max(antennaCount, col->PendingAntennaCount());
+      if (col->PendingRowCount() > rowsPerBlock)
+        throw DyscoStManError(
+            "The first time blocks should be written consecutively");
+    }
+  }
+
   _rowsPerBlock = rowsPerBlock;
   _antennaCount = antennaCount;
   _blockSize = 0;
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 1a340c7..a7f3be9 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -75,6 +75,20 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
   _shape = shape;
 }
 
+// The number of antennas is determined from the first block
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::checkAntennas(int antenna1,
+                                                  int antenna2) const {
+  const size_t count = areOffsetsInitialized()
+                           ? nAntennae()
+                           : std::numeric_limits<int>::max();
+  if (hasAntennaValues() &&
+      (antenna1 < 0 || antenna2 < 0 || size_t(antenna1) >= count ||
+       size_t(antenna2) >= count))
+    throw DyscoStManError(
+        "The data has an antenna that was not part of the first time block");
+}
+
 // Wait until the given block is not in the write cache
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
@@ -86,6 +100,8 @@ void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   waitUntilStored(blockIndex);
+  // If loading fails, the buffer does not hold any block
+  _currentBlock = std::numeric_limits<size_t>::max();
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -107,6 +123,7 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
       const bool hasRow = startRow + blockRow < nTableRows;
       int a1 = hasRow ? (*_ant1Col)(startRow + blockRow) : 0,
           a2 = hasRow ? (*_ant2Col)(startRow + blockRow) : 0;
+      checkAntennas(a1, a2);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
@@ -176,9 +193,7 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::putValues(
     casacore::uInt rowNr, const casacore::Array<DataType> *dataArr) {
-  // Make sure array storage is contiguous.
-  casacore::Bool deleteIt;
-  const DataType* dataPtr = dataArr->getStorage (deleteIt);
+  const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
   if (!areOffsetsInitialized()) {
     // If the manager did not initialize its offsets yet, then it is determined
     // from the first "time block" (a block with the same time, field and spw)
@@ -190,6 +205,7 @@ void ThreadedDyscoColumn<DataType>::putValues(
     //
     // A consequence of this is that the first blocks in a new measurement set
     // are required to be written consecutively.
+    checkAntennas(ant1, ant2);
     double time = (*_timeCol)(rowNr);
     int fieldId = (*_fieldCol)(rowNr);
     int dataDescId = (*_dataDescIdCol)(rowNr);
@@ -201,11 +217,18 @@ void ThreadedDyscoColumn<DataType>::putValues(
       _lastWrittenDataDescId = dataDescId;
     } else if (time != _lastWrittenTime || fieldId != _lastWrittenField ||
                dataDescId != _lastWrittenDataDescId) {
+      if (rowNr < _timeBlockBuffer->NRows())
+        throw DyscoStManError(
+            "The first time blocks should be written consecutively");
       initializeRowsPerBlock(rowNr, _timeBlockBuffer->MaxAntennaIndex() + 1);
     }
   }
 
-  const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
+  if (areOffsetsInitialized()) checkAntennas(ant1, ant2);
+
+  // Make sure array storage is contiguous.
+  casacore::Bool deleteIt;
+  const DataType* dataPtr = dataArr->getStorage (deleteIt);
   if (areOffsetsInitialized()) {
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 18cc1bc..bbbef88 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -162,6 +162,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual size_t defaultThreadCount() const;
 
+  /** Whether the encoding has values for each antenna. */
+  virtual bool hasAntennaValues() const { return false; }
+
   size_t getBitsPerSymbol() const { return _bitsPerSymbol; }
 
   const casacore::IPosition &shape() const { return _shape; }
@@ -207,6 +210,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  void checkAntennas(int antenna1, int antenna2) const;
   void waitUntilStored(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
-- 
2.43.0


From 1885bc33b1e4b544792b460aade2de9161d31f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 12/30] fix: removing a column corrupted the remaining columns

Removing a column from a manager with data only changed the header. As a
result, the remaining columns were read from wrong positions; running
decompress on a set of which both the data and weights were compressed
destroyed all weights.
The values of the remaining columns are now moved to their new positions.
---
 dyscostman.cc          | 53 +++++++++++++++++++++++++++++++++++++++++-
 dyscostman.h           |  2 ++
 dyscostmancol.h        | 10 ++++++++
 threadeddyscocolumn.cc |  9 +++++++
 threadeddyscocolumn.h  |  7 ++++++
 5 files changed, 80 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 87206f3..df61a39 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -9,6 +9,8 @@
 
 #include <algorithm>
 
+#include <unistd.h>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -471,8 +473,24 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
+      for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+        if (col == *i)
+          col->Discard();
+        else
+          col->Drain();
+      }
+      if (areOffsetsInitialized()) removeFromBlocks(i->get());
       _columns.erase(i);
-      writeHeader();
+      if (_columns.empty()) {
+        _rowsPerBlock = 0;
+        _antennaCount = 0;
+        _blockSize = 0;
+        _nBlocksInFile = 0;
+      }
+      if (areOffsetsInitialized())
+        initializeRowsPerBlock(_rowsPerBlock, _antennaCount, true);
+      else
+        writeHeader();
       return;
     }
   }
@@ -480,6 +498,39 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+// Move the values of all other columns to the positions they have in a file
+// without the given column. The new position of a block is never beyond its
+// old position.
+void DyscoStMan::removeFromBlocks(const DyscoStManColumn *column) {
+  const size_t oldHeaderSize = _headerSize, oldBlockSize = _blockSize;
+  const size_t newHeaderSize = oldHeaderSize - sizeof(GenericColumnHeader) -
+                               column->ExtraHeaderSize();
+  const size_t columnSize =
+      column->CalculateBlockSize(_rowsPerBlock, _antennaCount);
+  const size_t newBlockSize = oldBlockSize - columnSize;
+  std::vector<char> buffer(oldBlockSize);
+  for (size_t block = 0; block != _nBlocksInFile; ++block) {
+    _fStream->seekg(getFileOffset(block), std::ios_base::beg);
+    _fStream->read(buffer.data(), oldBlockSize);
+    if (_fStream->fail()) {
+      // The last block might be incomplete
+      std::fill(buffer.begin() + _fStream->gcount(), buffer.end(), 0);
+      _fStream->clear();
+    }
+    buffer.erase(buffer.begin() + column->OffsetInBlock(),
+                 buffer.begin() + column->OffsetInBlock() + columnSize);
+    _fStream->seekp(newHeaderSize + newBlockSize * block, std::ios_base::beg);
+    _fStream->write(buffer.data(), newBlockSize);
+    buffer.resize(oldBlockSize);
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(),
+               newHeaderSize + newBlockSize * _nBlocksInFile) != 0)
+    throw DyscoStManError("I/O error: could not remove column from file '" +
+                          fileName() + "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index 4b312f5..12398d9 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -329,6 +329,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void makeEmpty();
 
+  void removeFromBlocks(const DyscoStManColumn *column);
+
   void setFromSpec(const casacore::Record &spec);
 
   size_t getFileOffset(size_t blockIndex) const {
diff --git a/dyscostmancol.h b/dyscostmancol.h
index d23eaf1..ff9d3ce 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -36,6 +36,16 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** To be called before destructing the class. */
   virtual void shutdown() = 0;
 
+  /**
+   * Write all values to the file and stop the encoding threads. Blocks that
+   * are required afterwards, are read from the file again. Values that were
+   * set before the block size is known are kept.
+   */
+  virtual void Drain() = 0;
+
+  /** Forget values that were set, but were not written yet. */
+  virtual void Discard() = 0;
+
   /**
    * Number of rows and antennas in the values that have been set, but not yet
    * given to the encoding threads. Zero when there are no such values.
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index a7f3be9..721ef5b 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -41,6 +41,15 @@ void ThreadedDyscoColumn<DataType>::shutdown() {
   stopThreads();
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::Drain() {
+  if (areOffsetsInitialized()) {
+    if (_isCurrentBlockChanged) storeBlock();
+    stopThreads();
+    _currentBlock = std::numeric_limits<size_t>::max();
+  }
+}
+
 template <typename DataType>
 ThreadedDyscoColumn<DataType>::~ThreadedDyscoColumn() {
   shutdown();
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index bbbef88..34e6777 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -105,6 +105,13 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
    */
   virtual void InitializeAfterNRowsPerBlockIsKnown() override;
 
+  virtual void Drain() final override;
+
+  virtual void Discard() final override {
+    _isCurrentBlockChanged = false;
+    Drain();
+  }
+
   virtual size_t PendingRowCount() const final override {
     return _isCurrentBlockChanged ? _timeBlockBuffer->NRows() : 0;
   }
-- 
2.43.0


From e8a186f2c6e5af3f8886cf72a333b94d8de98d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 13/30] fix: dscompress read past the baselines of the first
 timeblock

This happened when a later timeblock has more baselines.
---
 dscompress.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index fc5ed0d..7770774 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -301,6 +301,15 @@ int main(int argc, char *argv[]) {
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
       } else {
+        if (blockOffset >= antennasInBlock.size()) {
+          std::ostringstream msg;
+          msg << "This measurement set is not 'regular'; at table row " << row
+              << ", timeblock index " << blockNumber
+              << " has more baselines than the first timeblock. In other "
+                 "words, not all timesteps had the same baselines. This is "
+                 "required to be able to compress with Dysco.";
+          throw std::runtime_error(msg.str());
+        }
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
           std::string antstr;
-- 
2.43.0


From f4ed5bd7291819fa454aac7f2ad8e3e569092447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 14/30] fix: dscompress changed flagged values of sets that it
 refused

The regularity of the measurement set is now checked before the flagged
values are replaced by NaNs.
---
 dscompress.cc | 61 +++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 7770774..45db2f8 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -233,39 +233,8 @@ int main(int argc, char *argv[]) {
       new casacore::Table(msPath, casacore::Table::Update));
 
   Stopwatch watch(true);
-  std::cout << "Replacing flagged values by NaNs...\n";
-  for (const std::string &columnName : columnNames) {
-    if (columnName != "WEIGHT_SPECTRUM") {
-      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
-      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
-      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
-      casacore::Array<bool> flagArr(flagCol.shape(0));
-      for (size_t row = 0; row != ms->nrow(); ++row) {
-        dataCol.get(row, dataArr);
-        flagCol.get(row, flagArr);
-        casacore::Array<bool>::contiter f = flagArr.cbegin();
-        bool isChanged = false;
-        for (casacore::Array<std::complex<float>>::contiter d =
-                 dataArr.cbegin();
-             d != dataArr.cend(); ++d) {
-          if (*f) {
-            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
-                                     std::numeric_limits<float>::quiet_NaN());
-            isChanged = true;
-          }
-          ++f;
-        }
-        if (isChanged) dataCol.put(row, dataArr);
-      }
-    }
-  }
-  std::cout << "Time taken: " << watch.ToString() << '\n';
-
   if (doCheckMSFormat) {
     std::cout << "Validating MS ordering...\n";
-    watch.Reset();
-    watch.Start();
-
     casacore::ScalarColumn<int> antenna1Col(*ms, "ANTENNA1");
     casacore::ScalarColumn<int> antenna2Col(*ms, "ANTENNA2");
     casacore::ScalarColumn<int> fieldIdCol(*ms, "FIELD_ID");
@@ -341,6 +310,36 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  watch.Reset();
+  watch.Start();
+  std::cout << "Replacing flagged values by NaNs...\n";
+  for (const std::string &columnName : columnNames) {
+    if (columnName != "WEIGHT_SPECTRUM") {
+      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
+      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
+      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
+      casacore::Array<bool> flagArr(flagCol.shape(0));
+      for (size_t row = 0; row != ms->nrow(); ++row) {
+        dataCol.get(row, dataArr);
+        flagCol.get(row, flagArr);
+        casacore::Array<bool>::contiter f = flagArr.cbegin();
+        bool isChanged = false;
+        for (casacore::Array<std::complex<float>>::contiter d =
+                 dataArr.cbegin();
+             d != dataArr.cend(); ++d) {
+          if (*f) {
+            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
+                                     std::numeric_limits<float>::quiet_NaN());
+            isChanged = true;
+          }
+          ++f;
+        }
+        if (isChanged) dataCol.put(row, dataArr);
+      }
+    }
+  }
+  std::cout << "Time taken: " << watch.ToString() << '\n';
+
   watch.Reset();
   watch.Start();
 
-- 
2.43.0


From 05d4a295b467ed8cd93eb41e28f3d55605adf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 15/30] fix: decompress left sets without WEIGHT_SPECTRUM in a
 broken state

It failed on the missing column, after having replaced the DATA column
by an empty column.
---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..9635d56 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -48,6 +48,8 @@ class StManModifier {
    */
   bool InitColumnWithDefaultStMan(const std::string &columnName,
                                   bool isWeight) {
+    if (!_ms.tableDesc().isColumn(columnName)) return false;
+
     std::string dataManager;
     if (isWeight)
       dataManager = GetStorageManager<float>(columnName);
-- 
2.43.0


From 684494ff5a33819129fc7ee1706b91ce0ff9e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 16/30] fix: dscompress broke sets that already had a
 compressed column

A column can not be added to a storage manager that already has data.
This was noticed only after the original column had been renamed.
Similarly, giving a column that was already compressed together with one
that was not, ended half way.
---
 dscompress.cc | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 45db2f8..7ef2232 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -15,13 +15,14 @@ using namespace dyscostman;
 
 template <typename T>
 void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
+                            const std::string &stManName,
                             const casacore::IPosition &shape,
                             unsigned bitsPerComplex, unsigned bitsPerWeight,
                             Normalization normalization,
                             DyscoDistribution distribution, double studentsTNu,
                             double distributionTruncation, bool staticSeed) {
   std::cout << "Constructing new column '" << name << "'...\n";
-  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", "DyscoStMan",
+  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", stManName,
                                           shape);
   columnDesc.setOptions(casacore::ColumnDesc::Direct |
                         casacore::ColumnDesc::FixedShape);
@@ -29,11 +30,11 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   std::cout << "Querying storage manager...\n";
   bool isAlreadyUsed;
   try {
-    ms.findDataManager("DyscoStMan");
+    ms.findDataManager(stManName);
     isAlreadyUsed = true;
   } catch (std::exception &e) {
     std::cout << "Constructing storage manager...\n";
-    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight);
+    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight, stManName);
     switch (distribution) {
       case GaussianDistribution:
         dataManager.SetGaussianDistribution();
@@ -61,7 +62,23 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, "DyscoStMan", false);
+    ms.addColumn(columnDesc, stManName, false);
+  }
+}
+
+/**
+ * Columns can not be added to a DyscoStMan that already has data, so every run
+ * requires a storage manager (name) that is not in use yet.
+ */
+std::string unusedStManName(const casacore::Table &ms) {
+  const casacore::Record info = ms.dataManagerInfo();
+  std::string name = "DyscoStMan";
+  for (size_t suffix = 2;; ++suffix) {
+    bool isUsed = false;
+    for (casacore::Int i = 0; i != casacore::Int(info.nfields()); ++i)
+      isUsed = isUsed || name == info.subRecord(i).asString("NAME").c_str();
+    if (!isUsed) return name;
+    name = "DyscoStMan_" + std::to_string(suffix);
   }
 }
 
@@ -346,8 +363,9 @@ int main(int argc, char *argv[]) {
   StManModifier modifier(*ms);
 
   casacore::IPosition shape;
-  bool isDataReplaced = false;
-  for (std::string columnName : columnNames) {
+  // Only the columns that are not compressed yet are replaced
+  std::vector<std::string> replacedColumnNames;
+  for (const std::string &columnName : columnNames) {
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
@@ -355,21 +373,24 @@ int main(int argc, char *argv[]) {
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    isDataReplaced = replaced || isDataReplaced;
+    if (replaced) replacedColumnNames.push_back(columnName);
   }
 
-  if (isDataReplaced) {
-    for (std::string columnName : columnNames) {
+  if (!replacedColumnNames.empty()) {
+    const std::string stManName = unusedStManName(*ms);
+    for (const std::string &columnName : replacedColumnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, columnName, stManName, shape, bitsPerFloat, bitsPerWeight,
+            normalization, distribution, 1.0, distributionTruncation,
+            staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, columnName, stManName, shape, bitsPerFloat, bitsPerWeight,
+            normalization, distribution, 1.0, distributionTruncation,
+            staticSeed);
     }
-    for (std::string columnName : columnNames) {
+    for (const std::string &columnName : replacedColumnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         modifier.MoveColumnData<float>(columnName);
       else
-- 
2.43.0


From edf537cc923e052730c6de227eade9f2449f7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 17/30] fix: StudentT quantiles for a small nu aborted the
 process

gsl_cdf_tdist_Pinv() does not converge for every probability when nu is
between approximately 0.5 and 0.8, and GSL then calls abort().
---
 stochasticencoder.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/stochasticencoder.cc b/stochasticencoder.cc
index 32b051f..19068f2 100644
--- a/stochasticencoder.cc
+++ b/stochasticencoder.cc
@@ -12,6 +12,33 @@
 
 namespace dyscostman {
 
+namespace {
+
+/** Inverse cumulative of Student's t-distribution. */
+double invCumulativeStudentT(double c, double nu) {
+  // The GSL function does not always converge (and then aborts) for values of
+  // nu below one.
+  if (nu >= 1.0) return gsl_cdf_tdist_Pinv(c, nu);
+  if (c == 0.5) return 0.0;
+  if (c < 0.5) return -invCumulativeStudentT(1.0 - c, nu);
+  const double tail = 1.0 - c;
+  double low = 0.0, high = 1.0;
+  while (gsl_cdf_tdist_Q(high, nu) > tail) {
+    low = high;
+    high *= 2.0;
+  }
+  for (double x = 0.5 * (low + high); x > low && x < high;
+       x = 0.5 * (low + high)) {
+    if (gsl_cdf_tdist_Q(x, nu) > tail)
+      low = x;
+    else
+      high = x;
+  }
+  return high;
+}
+
+}  // namespace
+
 template <typename ValueType>
 inline typename StochasticEncoder<ValueType>::num_t
 StochasticEncoder<ValueType>::cumulative(num_t x) {
@@ -130,12 +157,12 @@ void StochasticEncoder<ValueType>::initializeStudentT(double nu, double rms) {
   for (size_t i = 0; i != quantCount - 1; ++i) {
     if (i != 0) {
       num_t rightBoundary = ((num_t)i) / (num_t)(quantCount - 1);
-      *encItem = gsl_cdf_tdist_Pinv(rightBoundary, nu) * rms;
+      *encItem = invCumulativeStudentT(rightBoundary, nu) * rms;
       ++encItem;
     }
 
     num_t val = ((num_t)i + num_t(0.5)) / (num_t)(quantCount - 1);
-    *decItem = gsl_cdf_tdist_Pinv(val, nu) * rms;
+    *decItem = invCumulativeStudentT(val, nu) * rms;
     ++decItem;
   }
   *encItem = std::numeric_limits<ValueType>::max();
-- 
2.43.0


From e8b4433ff1dd397a45c7d27207826f663daba994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 18/30] fix: value equal to a quantization level could be
 dithered to another level

The dither mark of such a value is 2^31. The largest dither values round to
2^31 when they are converted to float, causing the lower level to be chosen.
---
 stochasticencoder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..ec881f6 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -113,7 +113,8 @@ class StochasticEncoder {
 
       ValueType ditherMark =
           ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
-      if (ditherMark > ditherValue)
+      // Compared as doubles, because a float can't hold every dither value
+      if (double(ditherMark) > double(ditherValue))
         return _decDictionary.symbol(lowerBound);
       else
         return _decDictionary.symbol(lowerBound - 1);
-- 
2.43.0


From 2f768ee9b70500046f9f914c60267baeaac3d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 19/30] fix: copy of an encoder read past its buffer when
 decoding NaN symbols

The value of the last symbol is stored in the reserved space of the dictionary,
which is not part of a copy.
---
 stochasticencoder.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index ec881f6..7ae99a4 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstring>
+#include <limits>
 
 #include "dictionary.h"
 
@@ -59,6 +60,27 @@ class StochasticEncoder {
     return encoder;
   }
 
+  /**
+   * Copy the encoder. The value for the last symbol (NaN) is stored just after
+   * the values of the dictionary, and is therefore not copied with them.
+   */
+  StochasticEncoder(const StochasticEncoder &source)
+      : _encDictionary(source._encDictionary),
+        _decDictionary(source._decDictionary) {
+    storeNaN();
+  }
+
+  StochasticEncoder(StochasticEncoder &&source) = default;
+
+  StochasticEncoder &operator=(const StochasticEncoder &source) {
+    _encDictionary = source._encDictionary;
+    _decDictionary = source._decDictionary;
+    storeNaN();
+    return *this;
+  }
+
+  StochasticEncoder &operator=(StochasticEncoder &&source) = default;
+
   /**
    * Unsigned integer type used for representing the encoded symbols.
    */
@@ -155,6 +177,11 @@ class StochasticEncoder {
   explicit StochasticEncoder(size_t quantCount)
       : _encDictionary(quantCount - 1), _decDictionary(quantCount - 1) {}
 
+  void storeNaN() {
+    _decDictionary.reserve(QuantizationCount());
+    *_decDictionary.end() = std::numeric_limits<ValueType>::quiet_NaN();
+  }
+
   void initializeStudentT(double nu, double rms);
 
   void initializeTruncatedGaussian(double truncationValue, double rms);
-- 
2.43.0


From a6d41b1e898566a4d29c56ce2ef24a85bdf7a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 20/30] fix: autocorrelations became NaN when all
 cross-correlations are flagged

Without cross-correlations the antenna factors of the AF normalization decreased
to almost zero, after which the scaled values were out of range.
---
 aftimeblockencoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 81afe09..96919e1 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -1,5 +1,6 @@
 #include "aftimeblockencoder.h"
 
+#include <algorithm>
 #include <random>
 
 namespace {
@@ -383,6 +384,9 @@ void AFTimeBlockEncoder::calculateAntennaeRMS(
         nextRMS[i] /= weightSum;
     }
 
+    // Without any (non-zero) cross-correlations, the antennas can't be normalized
+    if (*std::max_element(nextRMS.begin(), nextRMS.end()) == 0.0) break;
+
     double maxVal = 0.0;
     for (size_t i = 0; i != antennaCount; ++i) {
       _rmsPerAntenna[i] = nextRMS[i] * 0.8 + _rmsPerAntenna[i] * 0.2;
-- 
2.43.0


From 87a08d68764c1a855079c5b415fe43431dfe0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 21/30] fix: refusing to add a column to a manager with data
 crashed

When addColumn() refuses a column, casacore removes it again from the
manager. Removing a column assumed that it is part of the blocks, which
such a column is not.
---
 dyscostman.cc   | 3 ++-
 dyscostmancol.h | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index df61a39..97d604f 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -479,7 +479,8 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
         else
           col->Drain();
       }
-      if (areOffsetsInitialized()) removeFromBlocks(i->get());
+      // A column that was refused by addColumn() is not part of the blocks
+      if ((*i)->HasOffsetInBlock()) removeFromBlocks(i->get());
       _columns.erase(i);
       if (_columns.empty()) {
         _rowsPerBlock = 0;
diff --git a/dyscostmancol.h b/dyscostmancol.h
index ff9d3ce..cb72a86 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -27,6 +27,7 @@ class DyscoStManColumn : public casacore::StManColumn {
    */
   explicit DyscoStManColumn(DyscoStMan *parent, int dtype)
       : casacore::StManColumn(dtype),
+        _hasOffset(false),
         _offsetInBlock(0),
         _storageManager(parent) {}
 
@@ -82,9 +83,13 @@ class DyscoStManColumn : public casacore::StManColumn {
   size_t OffsetInBlock() const { return _offsetInBlock; }
 
   void SetOffsetInBlock(size_t offsetInBlock) {
+    _hasOffset = true;
     _offsetInBlock = offsetInBlock;
   }
 
+  /** Whether the blocks in the file have a place for this column. */
+  bool HasOffsetInBlock() const { return _hasOffset; }
+
  protected:
   /** Get the storage manager for this column */
   DyscoStMan &storageManager() const { return *_storageManager; }
@@ -129,6 +134,7 @@ class DyscoStManColumn : public casacore::StManColumn {
   DyscoStManColumn(const DyscoStManColumn &source) = delete;
   void operator=(const DyscoStManColumn &source) = delete;
 
+  bool _hasOffset;
   size_t _offsetInBlock;
   DyscoStMan *_storageManager;
 };
-- 
2.43.0


From f4da046b2dfb0b759dd86a5c229c228fde7608c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 22/30] fix: refuse cells that are not two dimensional

The data of cells with three dimensions was silently lost, and cells with
one dimension or without values crashed when writing.
---
 dyscostman.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 97d604f..6083e9e 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -414,6 +414,11 @@ void DyscoStMan::prepare() {
     if (!BytePacker::isSupported(bitCount))
       throw DyscoStManError("Unsupported bit rate: " +
                             std::to_string(bitCount));
+    const casacore::IPosition shape = col->shape(casacore::uInt(0));
+    if (shape.nelements() != 2 || shape.product() <= 0)
+      throw DyscoStManError(
+          "Unsupported shape: the cells of a Dysco column should have two "
+          "(non-empty) dimensions");
     if (dataCol) {
       CheckDistribution(_distribution, _studentTNu, _distributionTruncation);
       dataCol->SetBitsPerSymbol(_dataBitCount);
-- 
2.43.0


From 0b2dd7425ac9d4a2775ab09d246f2643f2a7004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 23/30] fix: decompress failed when a DyscoStMan is the first
 storage manager

casacore adds a column to the first storage manager that can add columns.
---
 stmanmodifier.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 9635d56..85cbb46 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -5,6 +5,7 @@
 
 #include <casacore/ms/MeasurementSets/MeasurementSet.h>
 
+#include <casacore/tables/DataMan/StandardStMan.h>
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
 
@@ -37,6 +38,24 @@ class StManModifier {
     return dataCol.columnDesc().dataManagerType();
   }
 
+  /**
+   * Find a name for a new storage manager.
+   * @param baseName Name that is used when it is not in use yet.
+   * @returns The base name, with a suffix if necessary.
+   */
+  static std::string UnusedStManName(const casacore::Table &ms,
+                                     const std::string &baseName) {
+    const casacore::Record info = ms.dataManagerInfo();
+    std::string name = baseName;
+    for (size_t suffix = 2;; ++suffix) {
+      bool isUsed = false;
+      for (casacore::Int i = 0; i != casacore::Int(info.nfields()); ++i)
+        isUsed = isUsed || name == info.subRecord(i).asString("NAME").c_str();
+      if (!isUsed) return name;
+      name = baseName + "_" + std::to_string(suffix);
+    }
+  }
+
   /**
    * Rename the old column and create a new column with the default storage
    * manager. After all columns have been renamed, the operation should be
@@ -63,16 +82,19 @@ class StManModifier {
       std::cout << "Renaming old " + columnName + " column...\n";
       _ms.renameColumn(tempName, columnName);
 
+      // Without an explicit storage manager, casacore would add the column to
+      // any manager that can add columns, including a DyscoStMan.
+      const casacore::StandardStMan stMan(UnusedStManName(_ms, columnName));
       if (isWeight) {
         casacore::ArrayColumn<float> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<float> columnDesc(columnName,
                                                     oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, stMan);
       } else {
         casacore::ArrayColumn<casacore::Complex> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<casacore::Complex> columnDesc(
             columnName, oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, stMan);
       }
       return true;
     } else {
-- 
2.43.0


From b28df888c7d78fd7f93aca1e0bdd2387cbada83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 24/30] fix: dscompress and decompress lost the keywords of the
 columns

---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 85cbb46..8191374 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -8,6 +8,7 @@
 #include <casacore/tables/DataMan/StandardStMan.h>
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
+#include <casacore/tables/Tables/TableRecord.h>
 
 #include <iostream>
 
@@ -151,6 +152,7 @@ class StManModifier {
     std::unique_ptr<casacore::ArrayColumn<T>> oldColumn(
         new casacore::ArrayColumn<T>(_ms, tempName));
     casacore::ArrayColumn<T> newColumn(_ms, columnName);
+    newColumn.rwKeywordSet() = oldColumn->keywordSet();
     copyValues(newColumn, *oldColumn, _ms.nrow());
     oldColumn.reset();
 
-- 
2.43.0


From 7c63d49bdccd1a0b3b0ccd6978d151915822e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 25/30] fix: dscompress could not add several columns to a
 second storage manager

The storage manager should be selected by its name, and not by its type.
---
 dscompress.cc | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 7ef2232..fcd87d5 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -62,23 +62,7 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, stManName, false);
-  }
-}
-
-/**
- * Columns can not be added to a DyscoStMan that already has data, so every run
- * requires a storage manager (name) that is not in use yet.
- */
-std::string unusedStManName(const casacore::Table &ms) {
-  const casacore::Record info = ms.dataManagerInfo();
-  std::string name = "DyscoStMan";
-  for (size_t suffix = 2;; ++suffix) {
-    bool isUsed = false;
-    for (casacore::Int i = 0; i != casacore::Int(info.nfields()); ++i)
-      isUsed = isUsed || name == info.subRecord(i).asString("NAME").c_str();
-    if (!isUsed) return name;
-    name = "DyscoStMan_" + std::to_string(suffix);
+    ms.addColumn(columnDesc, stManName, true);
   }
 }
 
@@ -377,7 +361,10 @@ int main(int argc, char *argv[]) {
   }
 
   if (!replacedColumnNames.empty()) {
-    const std::string stManName = unusedStManName(*ms);
+    // Columns can not be added to a DyscoStMan that already has data, so every
+    // run requires a storage manager (name) that is not in use yet.
+    const std::string stManName =
+        StManModifier::UnusedStManName(*ms, "DyscoStMan");
     for (const std::string &columnName : replacedColumnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-- 
2.43.0


From db996b3869519ddf722bc4106b665a07071cbd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 26/30] fix: dscompress broke sets when it was given an
 unsuitable column

Columns that do not exist, have cells of various shapes, can not be removed
or are given twice are now handled before anything is changed. Columns of
different shapes can be compressed together.
---
 dscompress.cc | 67 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index fcd87d5..ac90b2e 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -11,6 +11,8 @@
 #include <casacore/tables/Tables/ArrayColumn.h>
 #include <casacore/tables/Tables/ScalarColumn.h>
 
+#include <algorithm>
+
 using namespace dyscostman;
 
 template <typename T>
@@ -66,6 +68,52 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   }
 }
 
+/**
+ * Check that all cells of a column are two dimensional and have the same shape.
+ * @returns Shape of the cells of the column.
+ */
+template <typename T>
+casacore::IPosition checkShape(const casacore::Table &ms,
+                               const std::string &columnName) {
+  const casacore::ArrayColumn<T> column(ms, columnName);
+  const casacore::IPosition shape = column.shape(0);
+  bool isSupported = shape.nelements() == 2;
+  for (size_t row = 0; row != ms.nrow() && isSupported; ++row)
+    isSupported = column.isDefined(row) && column.shape(row).isEqual(shape);
+  if (!isSupported)
+    throw std::runtime_error("Not all cells of column " + columnName +
+                             " are two dimensional with the same shape");
+  return shape;
+}
+
+/**
+ * Check that a column can be replaced. This should be called for all columns
+ * before anything is changed in the measurement set.
+ */
+void checkColumn(const casacore::Table &ms, const std::string &columnName) {
+  if (columnName == "WEIGHT_SPECTRUM")
+    checkShape<float>(ms, columnName);
+  else if (!checkShape<casacore::Complex>(ms, columnName)
+                .isEqual(checkShape<bool>(ms, "FLAG")))
+    throw std::runtime_error("Column " + columnName +
+                             " does not have the same shape as its flags");
+
+  if (ms.tableDesc().isColumn("TEMP_" + columnName))
+    throw std::runtime_error("Column TEMP_" + columnName + " already exists");
+
+  // Some storage managers can only be removed as a whole
+  const casacore::Record info = ms.dataManagerInfo();
+  for (casacore::Int i = 0; i != casacore::Int(info.nfields()); ++i) {
+    const casacore::Array<casacore::String> columns =
+        info.subRecord(i).asArrayString("COLUMNS");
+    if (std::find(columns.begin(), columns.end(), columnName) !=
+            columns.end() &&
+        columns.nelements() != 1 && !ms.canRemoveColumn(columnName))
+      throw std::runtime_error("The storage manager of column " + columnName +
+                               " does not support removing the column");
+  }
+}
+
 /**
  * Compress a given measurement set.
  * @param argc Command line parameter count
@@ -166,7 +214,9 @@ int main(int argc, char *argv[]) {
       distributionTruncation = atof(argv[argi]);
     } else if (p == "column") {
       ++argi;
-      columnNames.push_back(argv[argi]);
+      if (std::find(columnNames.begin(), columnNames.end(), argv[argi]) ==
+          columnNames.end())
+        columnNames.push_back(argv[argi]);
     } else if (p == "rfnormalization") {
       normalization = Normalization::kRF;
     } else if (p == "afnormalization") {
@@ -311,6 +361,9 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  for (const std::string &columnName : columnNames)
+    checkColumn(*ms, columnName);
+
   watch.Reset();
   watch.Start();
   std::cout << "Replacing flagged values by NaNs...\n";
@@ -346,18 +399,22 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
   // Only the columns that are not compressed yet are replaced
   std::vector<std::string> replacedColumnNames;
+  std::vector<casacore::IPosition> shapes;
   for (const std::string &columnName : columnNames) {
     bool replaced;
+    casacore::IPosition shape;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    if (replaced) replacedColumnNames.push_back(columnName);
+    if (replaced) {
+      replacedColumnNames.push_back(columnName);
+      shapes.push_back(shape);
+    }
   }
 
   if (!replacedColumnNames.empty()) {
@@ -365,7 +422,9 @@ int main(int argc, char *argv[]) {
     // run requires a storage manager (name) that is not in use yet.
     const std::string stManName =
         StManModifier::UnusedStManName(*ms, "DyscoStMan");
-    for (const std::string &columnName : replacedColumnNames) {
+    for (size_t i = 0; i != replacedColumnNames.size(); ++i) {
+      const std::string &columnName = replacedColumnNames[i];
+      const casacore::IPosition &shape = shapes[i];
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
             *ms, columnName, stManName, shape, bitsPerFloat, bitsPerWeight,
-- 
2.43.0


From e53f7360bf720e33919af74b3bd770e260cb0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:22 +0000
Subject: [PATCH 27/30] fix: a manager of which all columns were removed stayed
 in the table

The number of columns of the manager was not updated when a column was
removed, so casacore did not delete the manager with its last column: its
file remained and its name could not be used again.
---
 dyscostman.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 6083e9e..14e3ba4 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -487,6 +487,7 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       // A column that was refused by addColumn() is not part of the blocks
       if ((*i)->HasOffsetInBlock()) removeFromBlocks(i->get());
       _columns.erase(i);
+      decrementNcolumn();
       if (_columns.empty()) {
         _rowsPerBlock = 0;
         _antennaCount = 0;
-- 
2.43.0


From 5cfc284a50d0a529f493363070c78fe5c411f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:16 +0000
Subject: [PATCH 28/30] fix: rows could not be read next to rows with an
 unknown antenna

---
 threadeddyscocolumn.cc | 26 ++++++++++++++++++--------
 threadeddyscocolumn.h  |  1 +
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 721ef5b..a81b788 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -86,14 +86,20 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 // The number of antennas is determined from the first block
 template <typename DataType>
-void ThreadedDyscoColumn<DataType>::checkAntennas(int antenna1,
-                                                  int antenna2) const {
+bool ThreadedDyscoColumn<DataType>::areAntennasKnown(int antenna1,
+                                                     int antenna2) const {
   const size_t count = areOffsetsInitialized()
                            ? nAntennae()
                            : std::numeric_limits<int>::max();
-  if (hasAntennaValues() &&
-      (antenna1 < 0 || antenna2 < 0 || size_t(antenna1) >= count ||
-       size_t(antenna2) >= count))
+  return !hasAntennaValues() ||
+         (antenna1 >= 0 && antenna2 >= 0 && size_t(antenna1) < count &&
+          size_t(antenna2) < count);
+}
+
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::checkAntennas(int antenna1,
+                                                  int antenna2) const {
+  if (!areAntennasKnown(antenna1, antenna2))
     throw DyscoStManError(
         "The data has an antenna that was not part of the first time block");
 }
@@ -126,15 +132,17 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
     const uint64_t nTableRows = _ant1Col->nrow();
+    _timeBlockBuffer->ResetData();
     _timeBlockBuffer->resize(nRows);
     for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
       // The table might not have all the rows of its last block
       const bool hasRow = startRow + blockRow < nTableRows;
       int a1 = hasRow ? (*_ant1Col)(startRow + blockRow) : 0,
           a2 = hasRow ? (*_ant2Col)(startRow + blockRow) : 0;
-      checkAntennas(a1, a2);
-      decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-             a1, a2);
+      // A row with other antennas can not have been stored
+      if (areAntennasKnown(a1, a2))
+        decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(),
+               blockRow, a1, a2);
     }
   } else {
     _timeBlockBuffer->ResetData();
@@ -167,6 +175,8 @@ void ThreadedDyscoColumn<DataType>::getValues(
     // The time block buffer contains the unpacked block.
     _timeBlockBuffer->GetData(blockRow, dataPtr);
   } else {
+    if (hasOffsets && _currentBlock == blockIndex)
+      checkAntennas((*_ant1Col)(rowNr), (*_ant2Col)(rowNr));
     // Trying to read a row that was not stored yet -- return zero
     std::fill_n(dataPtr, dataArr->nelements(), DataType());
   }
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 34e6777..a4f358f 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -217,6 +217,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  bool areAntennasKnown(int antenna1, int antenna2) const;
   void checkAntennas(int antenna1, int antenna2) const;
   void waitUntilStored(size_t blockIndex);
   void loadBlock(size_t blockIndex);
-- 
2.43.0


From d9c05f28740ef71f4862d5354a2d9a3672ff1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:49 +0000
Subject: [PATCH 29/30] fix: an element of an uninitialized vector could not be
 added to that vector again

---
 uvector.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/uvector.h b/uvector.h
index 442550a..e90a146 100644
--- a/uvector.h
+++ b/uvector.h
@@ -323,6 +323,8 @@ class UVector : private Alloc {
    * @param val New value of elements that get added to the container.
    */
   void resize(size_t n, const Tp& val) {
+    // Copied because val might be an element of this vector
+    const Tp value(val);
     size_t oldSize = size();
     if (capacity() < n) {
       pointer newStorage = allocate(n);
@@ -332,7 +334,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, val);
+    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, value);
   }
 
   /** @brief Get the number of elements the container can currently hold without
@@ -451,6 +453,8 @@ class UVector : private Alloc {
    * @param val Value to be assigned to all elements.
    */
   void assign(size_t n, const Tp& val) {
+    // Copied because val might be an element of this vector
+    const Tp value(val);
     if (n > capacity()) {
       iterator newStorage = allocate(n);
       deallocate();
@@ -458,7 +462,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    std::uninitialized_fill_n<Tp*, size_t>(_begin, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_begin, n, value);
   }
 
   /** @brief Assign this container to an initializer list.
@@ -487,8 +491,10 @@ class UVector : private Alloc {
    * @param item Value of new element.
    */
   void push_back(const Tp& item) {
+    // Copied because item might be an element of this vector
+    const Tp value(item);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = item;
+    *_end = value;
     ++_end;
   }
 
@@ -518,6 +524,8 @@ class UVector : private Alloc {
    * @return Position of the new element.
    */
   iterator insert(const_iterator position, const Tp& item) {
+    // Copied because item might be an element of this vector
+    const Tp value(item);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -526,7 +534,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = item;
+    *const_cast<iterator>(position) = value;
     return const_cast<iterator>(position);
   }
 
@@ -541,6 +549,8 @@ class UVector : private Alloc {
    * @return Position of the first new element.
    */
   iterator insert(const_iterator position, size_t n, const Tp& val) {
+    // Copied because val might be an element of this vector
+    const Tp value(val);
     if (capacity() < size() + n) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(n), index, n);
@@ -549,7 +559,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + n);
       _end += n;
     }
-    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, value);
     return const_cast<iterator>(position);
   }
 
@@ -675,6 +685,8 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   iterator emplace(const_iterator position, Args&&... args) {
+    // Constructed first because args might refer to elements of this vector
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -683,7 +695,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = Tp(std::forward<Args>(args)...);
+    *const_cast<iterator>(position) = std::move(value);
     return const_cast<iterator>(position);
   }
 
@@ -694,8 +706,10 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   Tp& emplace_back(Args&&... args) {
+    // Constructed first because args might refer to elements of this vector
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = Tp(std::forward<Args>(args)...);
+    *_end = std::move(value);
     ++_end;
     return back();
   }
@@ -749,10 +763,12 @@ class UVector : private Alloc {
    * @param val Value of the new items.
    */
   void push_back(size_t n, const Tp& val) {
+    // Copied because val might be an element of this vector
+    const Tp value(val);
     if (capacity() - size() < n) {
       enlarge(enlarge_size(n));
     }
-    std::uninitialized_fill_n<Tp*, size_t>(_end, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_end, n, value);
     _end += n;
   }
 
-- 
2.43.0


From 3e1bdd04aeeff22bb37c226ec0e53e3fe025b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 30/30] fix: memory of an uninitialized vector was deallocated
 with another allocator

---
 uvector.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/uvector.h b/uvector.h
index e90a146..66fe4a8 100644
--- a/uvector.h
+++ b/uvector.h
@@ -197,14 +197,12 @@ class UVector : private Alloc {
    * @param other Source UVector to be moved from.
    * @param allocator Allocator used for allocating and deallocating memory.
    */
-  UVector(UVector<Tp, Alloc>&& other, const allocator_type& allocator) noexcept
-      : Alloc(allocator),
-        _begin(other._begin),
-        _end(other._end),
-        _endOfStorage(other._endOfStorage) {
-    other._begin = nullptr;
-    other._end = nullptr;
-    other._endOfStorage = nullptr;
+  UVector(UVector<Tp, Alloc>&& other, const allocator_type& allocator) noexcept(
+      allocator_is_always_equal::value)
+      : Alloc(allocator), _begin(nullptr), _end(nullptr), _endOfStorage(nullptr) {
+    // Memory can not be taken over when it has to be deallocated with another
+    // allocator; this copies the elements in that case.
+    assign_move_from(std::move(other), std::false_type());
   }
 
   /** @brief Construct a UVector from a initializer list.
@@ -960,17 +958,19 @@ class UVector : private Alloc {
   // implementation of operator=(const&) with
   // propagate_on_container_copy_assignment
   UVector& assign_copy_from(const UVector<Tp, Alloc>& other, std::true_type) {
-    if (allocator_is_always_equal() || static_cast<Alloc&>(other) == static_cast<Alloc&>(*this)) {
+    if (allocator_is_always_equal() ||
+        static_cast<const Alloc&>(other) == static_cast<Alloc&>(*this)) {
       assign_copy_from(other, std::false_type());
     } else {
       const size_t n = other.size();
-      iterator newStorage = static_cast<Alloc&>(other).allocate(n);
+      Alloc otherAllocator(static_cast<const Alloc&>(other));
+      iterator newStorage = otherAllocator.allocate(n);
       deallocate();
       _begin = newStorage;
       _end = _begin + n;
       _endOfStorage = _end;
       std::copy(other._begin, other._begin + n, _begin);
-      Alloc::operator=(static_cast<Alloc&>(other));
+      Alloc::operator=(static_cast<const Alloc&>(other));
     }
     return *this;
   }
-- 
2.43.0

