From 49fab055137418447aa3afce5051a5ca8f1eaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 01/53] fix: Bitset operator< compared in the wrong direction
 and read past the blocks

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..25ba235 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1536,9 +1536,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1546,8 +1546,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From e37f9884c81cb3b77624ad31c2b4506c9cdadcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 02/53] fix: Bitset::BitIterator post-increment did not advance
 the iterator

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 25ba235..1cea9f0 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1434,7 +1434,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++(*this);
 		return copy;
 	}
 
-- 
2.43.0


From 834530409bd40fa9b4cc26cbc9497e42f99f1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 03/53] fix: Bitset::AppendBits left bits past the requested
 count in the last block and overflowed its mask shift

---
 include/NazaraUtils/Bitset.inl | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 1cea9f0..24367ae 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -158,11 +158,16 @@ namespace Nz
 		std::size_t bitShift = m_bitCount % bitsPerBlock;
 		m_bitCount += bitCount;
 
+		// Get rid of the bits we don't want (including sign extension) so they don't end up in the last block
+		UInt64 value = static_cast<UInt64>(bits);
+		if (std::size_t valueBits = std::min<std::size_t>(bitCount, BitCount<T>); valueBits < BitCount<UInt64>)
+			value &= (UInt64(1U) << valueBits) - 1U;
+
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
-			m_blocks.back() |= Block(bits) << bitShift;
-			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
+			m_blocks.back() |= Block(value) << bitShift;
+			value >>= remainingBits;
 
 			bitCount -= std::min(remainingBits, bitCount);
 		}
@@ -172,21 +177,15 @@ namespace Nz
 			std::size_t blockCount = ComputeBlockCount(bitCount);
 			for (std::size_t block = 0; block < blockCount - 1; ++block)
 			{
-				m_blocks.push_back(static_cast<Block>(bits));
+				m_blocks.push_back(static_cast<Block>(value));
 
-				if constexpr (bitsPerBlock < BitCount<T>)
-					bits >>= bitsPerBlock;
+				if constexpr (bitsPerBlock < BitCount<UInt64>)
+					value >>= bitsPerBlock;
 				else
-					bits = 0;
-
-				bitCount -= bitsPerBlock;
+					value = 0;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
-			m_blocks.push_back(static_cast<Block>(bits));
+			m_blocks.push_back(static_cast<Block>(value));
 		}
 	}
 
-- 
2.43.0


From 4163d4530ef7859afbbf152985c5cbf3d2df2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 04/53] fix: Bitset::Write read a byte and moved past it when
 asked for no bit

---
 include/NazaraUtils/Bitset.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 24367ae..5d4730e 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -367,6 +367,9 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From 40a858aa16e9a3417f56c69d3df77def04cab165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 05/53] fix: Bitset built from a negative integer kept sign
 bits past its size

---
 include/NazaraUtils/Bitset.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 5d4730e..ee9b9c2 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -125,6 +125,7 @@ namespace Nz
 		{
 			m_bitCount = BitCount<T>;
 			m_blocks.push_back(static_cast<Block>(value));
+			ResetExtraBits(); // sign extension
 		}
 		else
 		{
-- 
2.43.0


From fbb5b29c8d6c3bb12280439c7ed5e85758dc10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 06/53] fix: a moved-from Bitset kept its size without its
 blocks

---
 include/NazaraUtils/Bitset.hpp |  4 ++--
 include/NazaraUtils/Bitset.inl | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..ccffcbb 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -38,7 +38,7 @@ namespace Nz
 			constexpr explicit Bitset(const std::string_view& bits);
 			constexpr explicit Bitset(const std::string& bits);
 			template<typename T> constexpr Bitset(T value);
-			constexpr Bitset(Bitset&& bitset) noexcept = default;
+			constexpr Bitset(Bitset&& bitset) noexcept;
 			~Bitset() noexcept = default;
 
 			template<typename T> constexpr void AppendBits(T bits, std::size_t bitCount);
@@ -104,7 +104,7 @@ namespace Nz
 			constexpr Bitset& operator=(const Bitset& bitset) = default;
 			constexpr Bitset& operator=(const std::string_view& bits);
 			template<typename T> constexpr Bitset& operator=(T value);
-			constexpr Bitset& operator=(Bitset&& bitset) noexcept = default;
+			constexpr Bitset& operator=(Bitset&& bitset) noexcept;
 
 			constexpr Bitset operator<<(std::size_t pos) const;
 			constexpr Bitset& operator<<=(std::size_t pos);
diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index ee9b9c2..da44db4 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -138,6 +138,19 @@ namespace Nz
 		}
 	}
 
+	/*!
+	* \brief Constructs a Bitset object by moving another one, which is left empty
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>::Bitset(Bitset&& bitset) noexcept :
+	m_blocks(std::move(bitset.m_blocks)),
+	m_bitCount(bitset.m_bitCount)
+	{
+		bitset.Clear();
+	}
+
 	/*!
 	* \brief Appends bits to the bitset
 	*
@@ -1005,6 +1018,25 @@ namespace Nz
 		return *this;
 	}
 
+	/*!
+	* \brief Moves a bitset into this one, leaving it empty
+	* \return A reference to this
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>& Bitset<Block, Container>::operator=(Bitset&& bitset) noexcept
+	{
+		if NAZARA_LIKELY(this != &bitset)
+		{
+			m_blocks = std::move(bitset.m_blocks);
+			m_bitCount = bitset.m_bitCount;
+			bitset.Clear();
+		}
+
+		return *this;
+	}
+
 	/*!
 	* \brief Shift all the bits toward the left
 	*
-- 
2.43.0


From a0a023f4f1608b6b04473d9878a2292f9fb08979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 07/53] fix: FixedVector/HybridVector assignment lost the
 elements on self-assignment and leaked inline elements when taking over a
 fallback

---
 include/NazaraUtils/FixedVector.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..2d5acb8 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,10 +691,16 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear(); // destroy the elements stored inline
+
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
@@ -712,6 +718,10 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
+		clear();
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			// Always move fallback container to steal capacity
@@ -723,7 +733,6 @@ namespace Nz
 			}
 		}
 
-		clear();
 		reserve(vec.size());
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(std::move(vec[i]));
-- 
2.43.0


From 9bcfc65f0adc2293db34bd8f2ce6027231535060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 08/53] fix: FixedVector/HybridVector insertion and resize read
 their arguments after moving the elements they may refer to

---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 80 ++++++++++++-----------------
 2 files changed, 32 insertions(+), 49 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..79d416a 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -119,7 +119,6 @@ namespace Nz
 			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
 
 		private:
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 2d5acb8..e85d2be 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,24 +367,34 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); // arguments may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(data(m_size), std::move(*lastElement));
+			T value(std::forward<Args>(args)...); // arguments may refer to an element which is about to be moved
+			PlacementNew(data(m_size), std::move(*data(m_size - 1)));
+			m_size++;
 
-			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
-
-			PlacementDestroy(data(index));
+			std::move_backward(data(index), data(m_size - 2), data(m_size - 1));
+			*data(index) = std::move(value);
+		}
+		else
+		{
+			PlacementNew(data(m_size), std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return iterator(data(index));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -393,8 +403,15 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); // arguments may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -510,27 +527,13 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		return emplace_back(value);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		return emplace_back(std::move(value));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -596,8 +599,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				T copy(value); // value may refer to an element which is about to be moved
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, copy);
 				return;
 			}
 		}
@@ -740,26 +744,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From 16d4759ed257e4a7ab6f28ab60fbe225e0e0c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 09/53] fix: FixedVector/HybridVector leaked or destroyed
 unconstructed elements when an element constructor threw

---
 include/NazaraUtils/FixedVector.inl | 33 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index e85d2be..aefe92f 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -209,16 +209,18 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector()
 	{
 		if (!vec.IsUsingFallback())
 		{
-			m_size = 0;
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(vec[i]);
 		}
 		else
+		{
+			Base::operator=(Base(vec));
 			m_size = FallbackInUse;
+		}
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -415,7 +417,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* element = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++; // only count the element once it has been constructed (its constructor may throw)
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -573,10 +578,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size));
 		}
 		else if (count < m_size)
 		{
@@ -609,10 +612,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size), value);
 		}
 		else if (count < m_size)
 		{
@@ -758,13 +759,13 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
+		Base::ClearFallback();
 		Base::ReserveFallback(capacity);
 		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+			Base::EmplaceBackInFallback(std::move(*data(i)));
+
+		// Only destroy the inline elements once they have all been moved (a move constructor may throw)
+		clear();
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From eb948ce4c0b0bdebfda9deba0f2bed32b897cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 10/53] fix: moved-from StackVector/StackArray kept their size
 and destroyed the elements they no longer own

---
 include/NazaraUtils/StackArray.hpp  |  4 ++--
 include/NazaraUtils/StackArray.inl  | 29 ++++++++++++++++++++++++++
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 32 +++++++++++++++++++++++++++++
 4 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..0a67f43 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(array.m_size),
+	m_ptr(std::move(array.m_ptr))
+	{
+		array.m_size = 0;
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +204,25 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		if (this == &array)
+			return *this;
+
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		#ifndef NAZARA_ALLOCA_SUPPORT
+		OperatorDelete(m_ptr);
+		#endif
+
+		m_size = array.m_size;
+		m_ptr = std::move(array.m_ptr);
+
+		array.m_size = 0;
+
+		return *this;
+	}
 }
diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..02c3b40 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vec) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vec) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..b8fc317 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,16 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vec) noexcept :
+	m_capacity(vec.m_capacity),
+	m_size(vec.m_size),
+	m_ptr(std::move(vec.m_ptr))
+	{
+		vec.m_capacity = 0;
+		vec.m_size = 0;
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -330,4 +340,26 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vec) noexcept
+	{
+		if (this == &vec)
+			return *this;
+
+		clear();
+
+		#ifndef NAZARA_ALLOCA_SUPPORT
+		operator delete(m_ptr);
+		#endif
+
+		m_capacity = vec.m_capacity;
+		m_size = vec.m_size;
+		m_ptr = std::move(vec.m_ptr);
+
+		vec.m_capacity = 0;
+		vec.m_size = 0;
+
+		return *this;
+	}
 }
-- 
2.43.0


From fb0af24a8dddf46d8079d26578fb9bf992211de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 11/53] fix: StackVector insertion read arguments after moving
 the elements they refer to and miscounted elements when a constructor threw

---
 include/NazaraUtils/StackVector.inl | 44 ++++++++++++++---------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index b8fc317..c7be8cf 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -133,19 +133,22 @@ namespace Nz
 		assert(pos >= begin() && pos <= end());
 
 		std::size_t index = std::distance(cbegin(), pos);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			T value(std::forward<Args>(args)...); // arguments may refer to an element which is about to be moved
+			PlacementNew(&m_ptr[m_size], std::move(m_ptr[m_size - 1]));
+			m_size++;
 
-			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
-
-			PlacementDestroy(&m_ptr[index]);
+			std::move_backward(&m_ptr[index], &m_ptr[m_size - 2], &m_ptr[m_size - 1]);
+			m_ptr[index] = std::move(value);
+		}
+		else
+		{
+			PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return iterator(&m_ptr[index]);
 	}
 
 	template<typename T>
@@ -153,7 +156,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* element = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++; // only count the element once it has been constructed (its constructor may throw)
+
+		return *element;
 	}
 
 	template<typename T>
@@ -239,15 +245,13 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
-		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		return emplace_back(value);
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
-		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		return emplace_back(std::move(value));
 	}
 
 	template<typename T>
@@ -263,10 +267,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size]);
 		}
 		else if (count < m_size)
 		{
@@ -283,10 +285,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size], value);
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From ca04596c2065c3b0f87d75d5931d459002c49001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 12/53] fix: CountBits and FindLastBit counted the sign
 extension of negative 8 and 16 bits integers

---
 include/NazaraUtils/MathUtils.inl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..5ff4e90 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -346,16 +346,18 @@ namespace Nz
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<UnsignedIntegerType_t<BitCount<T>>>(value)); //< don't count the bits of the sign extension
 			}
 #endif
 		}
 
 		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
+		auto unsignedVal = static_cast<UnsignedIntegerType_t<BitCount<T>>>(value);
+
 		std::size_t count = 0;
-		while (value)
+		while (unsignedVal)
 		{
-			value &= value - 1;
+			unsignedVal &= unsignedVal - 1;
 			count++;
 		}
 
@@ -466,7 +468,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<std::make_unsigned_t<T>>(number));
 			}
 #endif
 		}
-- 
2.43.0


From 167032feb073c874d892777f545cef8b71954dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 13/53] fix: IntegralLog2 ignored the upper word of 64 bits
 integers when it was one

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 5ff4e90..51b7dc2 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -71,7 +71,7 @@ namespace Nz
 
 				// Call of the function with 32 bits number, if the result is non-null we have our answer
 				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
+				if (log2 || val == 1)
 					return log2 + i * 8;
 			}
 
-- 
2.43.0


From 428703ca7ad07778ce9b8bd79e737fd5772c27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 14/53] fix: NumberEquals compared a promoted negative
 difference for 8 and 16 bits signed integers

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 51b7dc2..7836e55 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -138,7 +138,7 @@ namespace Nz
 				std::swap(a, b);
 
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From 8219b61ec4c49a9716810be5992b00125e577808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 15/53] fix: SwapBytes ran through memory when asked to swap no
 byte

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 7836e55..65d8527 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -536,6 +536,9 @@ NAZARA_WARNING_POP()
 	*/
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
+		if (size == 0)
+			return;
+
 		UInt8* bytes = static_cast<UInt8*>(buffer);
 		std::size_t i = 0;
 		std::size_t j = size - 1;
-- 
2.43.0


From aa149026d11ea10d09d87b8ab1949a6ce6abc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 16/53] fix: Align overflowed near the end of the type and was
 wrong for negative offsets

---
 include/NazaraUtils/MathUtils.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 65d8527..8378a6a 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -596,7 +596,9 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr T Align(T offset, T alignment) noexcept
 	{
 		NazaraAssert(alignment > 0);
-		return ((offset + alignment - 1) / alignment) * alignment;
+
+		T remainder = offset % alignment;
+		return (remainder > 0) ? offset + (alignment - remainder) : offset - remainder;
 	}
 
 	/*!
-- 
2.43.0


From 9561a89560bf3a2baf5ee0a2a98d462ae4c9cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 17/53] fix: Approach went past the objective when the step
 overflowed an integer type

---
 include/NazaraUtils/MathUtils.inl | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 8378a6a..9751f76 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -632,12 +632,28 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
-			return std::min(value + increment, objective);
-		else if (value > objective)
-			return std::max(value - increment, objective);
+		if constexpr (std::is_integral_v<T>)
+		{
+			// Compare distances to prevent overflow
+			using UnsignedT = std::make_unsigned_t<T>;
+
+			UnsignedT maxDistance = static_cast<UnsignedT>(increment);
+			if (value < objective)
+				return (static_cast<UnsignedT>(static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value)) > maxDistance) ? static_cast<T>(value + increment) : objective;
+			else if (value > objective)
+				return (static_cast<UnsignedT>(static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective)) > maxDistance) ? static_cast<T>(value - increment) : objective;
+			else
+				return value;
+		}
 		else
-			return value;
+		{
+			if (value < objective)
+				return std::min(value + increment, objective);
+			else if (value > objective)
+				return std::max(value - increment, objective);
+			else
+				return value;
+		}
 	}
 
 	/*!
-- 
2.43.0


From b7f7b85898a0d20ad0d59abb5fc2f4c26de6ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 18/53] fix: SafeCast skipped its checks for lvalues and for
 enumeration targets

---
 include/NazaraUtils/Algorithm.inl | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..b510402 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -199,24 +199,26 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
+		using FromType = std::remove_cv_t<std::remove_reference_t<From>>; //< From is a reference when value is a lvalue
+
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
 				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
 				if constexpr (!std::is_signed_v<To>)
 					NazaraAssert(value >= 0);
@@ -231,12 +233,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
-- 
2.43.0


From ff00c9d3d39ab72eafaf951874dd7929550675e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 19/53] fix: SafeCast accepted signed values too large for a
 narrower unsigned type

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index b510402..f81e557 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -216,7 +216,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
-- 
2.43.0


From 2c5e4ee97dd963e72b111441627d9a73e34185b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 20/53] fix: SafeCast from floating-point accepted the first
 value past the maximum and rejected large unsigned values

---
 include/NazaraUtils/Algorithm.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index f81e557..418c534 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -209,9 +209,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<FromType>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				// The maximum value may not be representable as a floating-point and be rounded up, but the next power of two is
+				constexpr FromType upperBound = static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * FromType(2);
+
+				NazaraAssert(value < upperBound);
 				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<FromType>)
 			{
-- 
2.43.0


From 91352323280c899c10e4195dbd6fdef72dd255bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 21/53] fix: AlignPow2 overflowed on the largest aligned signed
 values

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 9751f76..8264320 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -617,7 +617,7 @@ NAZARA_WARNING_POP()
 	{
 		NazaraAssert(alignment > 0);
 		NazaraAssert(IsPow2(alignment));
-		return (offset + alignment - 1) & ~(alignment - 1);
+		return (offset + (alignment - 1)) & ~(alignment - 1);
 	}
 
 	/*!
-- 
2.43.0


From bf6816439d18693e02b5d0e5955b5d731d65ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 22/53] fix: SafeCast accepted any 8 bits value as a bool

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 418c534..60552c6 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -219,7 +219,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || sizeof(FromType) > sizeof(To)), FromType, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || std::numeric_limits<FromType>::digits > std::numeric_limits<To>::digits), FromType, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
-- 
2.43.0


From 308f40f4307930080f74b9da351aac78c933698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 23/53] fix: FNV1a hashed sign-extended characters for C
 strings and string views

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..8f6104e 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 047eb0252a7cb4bb362fb026645de16ba383cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 24/53] fix: Flags computed the bit of enumeration values above
 31 in 32 bits

---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..df62a9b 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << ((bitIndex) - 1));
 	}
 
 	/*!
-- 
2.43.0


From 7616747e394ec3a08d9de1bf453d7fe4f0f07fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 25/53] fix: Flags could not complement a 64 values enumeration
 because of an overflowing shift

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..27c2492 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField((UInt64(2) << MaxValue) - 1);
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 54657ae09e666c0f69a57c363a01a8e31890e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 26/53] fix: Flags complement and exclusive or kept bits past
 the highest value of mask enumerations

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 27c2492..c03bce3 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(2) << MaxValue) - 1);
+			static constexpr BitField ValueMask = BitField((UInt64(2) << (AutoFlag ? MaxValue : IntegralLog2(MaxValue))) - 1);
 
 		private:
 			BitField m_value;
-- 
2.43.0


From e4bf0bd320b578a9b273666a78046921eba4e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 27/53] fix: std::hash of Flags could not be called on a const
 hasher

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index df62a9b..5b77e41 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 97fa815724b9335f86d06326afdc2f2196943368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 28/53] fix: MemoryPool::Reset left the entries marked as
 occupied

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..da1bdc0 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Set(false);
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From fe58e6bb6f06896e1f237aff238ea6a96dbc729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 29/53] fix: MemoryPool move assignment lost the entries of the
 pool without destroying them

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index da1bdc0..ccb24c1 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -350,6 +350,20 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	template<typename T, std::size_t Alignment>
+	MemoryPool<T, Alignment>& MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept
+	{
+		if (this != &pool)
+		{
+			Reset(); //< destroy the entries of this pool before losing them
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From e7ae4f760c8f2733ffd3238e75283d9f3c85ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 30/53] fix: MemoryPool::RetrieveEntryIndex returned wrong
 indices for over-aligned entries

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index ccb24c1..f85437f 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -287,11 +287,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* entryPtr = reinterpret_cast<const AlignedStorage*>(data);
+			if (entryPtr >= startPtr && entryPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(entryPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From 64551e53ede59c7328e4d89c3a1d1609e2258695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 31/53] fix: MemoryPool kept an entry occupied by nothing when
 the constructor of an object threw

---
 include/NazaraUtils/MemoryPool.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index f85437f..4827c6c 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <NazaraUtils/Algorithm.hpp>
+#include <NazaraUtils/CallOnExit.hpp>
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <stdexcept>
 #include <utility>
@@ -93,7 +94,10 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
+
+		CallOnExit freeOnFailure([this, entryIndex = index] { Free(entryIndex, NoDestruction); }); //< the constructor may throw
 		PlacementNew(entry, std::forward<Args>(args)...);
+		freeOnFailure.Reset();
 
 		return entry;
 	}
-- 
2.43.0


From c8386fdc5cee6697de17bd257eba7fecd9d2aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 32/53] fix: Signal connection guards could not be assigned a
 temporary connection

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From c9c505d8a541649a2945caac04f48e86976da36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 33/53] fix: Signal skipped slots when the first one
 disconnected itself and connected another one while being called

---
 include/NazaraUtils/Signal.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..275d535 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <cassert>
+#include <limits>
 #include <utility>
 
 namespace Nz
@@ -83,7 +84,8 @@ namespace Nz
 
 		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
 		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
+		// (when the first slot disconnects itself while being called, the iterator is before the first slot)
+		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != std::numeric_limits<SlotListIndex>::max());
 
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::move(func);
-- 
2.43.0


From 71ba94ec7f42bba76bc0302eb3fb0d37ba34ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 34/53] fix: Signal destroyed the callback of a slot
 disconnected or cleared by its own call

---
 include/NazaraUtils/Signal.inl | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 275d535..abd47bd 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -53,6 +53,9 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		for (SlotPtr& slot : m_slots)
+			slot->signal = nullptr;
+
 		m_slots.clear();
 		m_slotIterator = 0;
 	}
@@ -181,7 +184,10 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			SlotPtr slot = m_slots[m_slotIterator]; //< keep the slot alive until the end of the call, it may be disconnected by its own callback
+			slot->callback(args...);
+		}
 	}
 
 	/*!
@@ -260,6 +266,8 @@ namespace Nz
 
 		// Pop the last entry (from where we moved our slot)
 		m_slots.pop_back();
+
+		slot->signal = nullptr; //< the slot may still be alive if it's being called
 	}
 
 	/*!
@@ -312,7 +320,7 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		if (SlotPtr ptr = m_ptr.lock(); ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -324,7 +332,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal;
 	}
 
 	/*!
-- 
2.43.0


From 01309038876bb657402521f8a453bd344dbd5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 35/53] fix: a moved-from Signal kept its slots as null slots
 and crashed when used

---
 include/NazaraUtils/Signal.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index abd47bd..98168f3 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -218,6 +218,13 @@ namespace Nz
 		for (SlotPtr& slot : m_slots)
 			slot->signal = this;
 
+		if (&signal != this)
+		{
+			// The moved container may still have (null) slots
+			signal.m_slots.clear();
+			signal.m_slotIterator = 0;
+		}
+
 		return *this;
 	}
 
-- 
2.43.0


From fafe1acec6474cfa7b708988ebb046345a1d1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 36/53] fix: destroying, clearing or overwriting a Signal let
 connections owned by its slots disconnect slots being destroyed

---
 include/NazaraUtils/Signal.hpp |  2 +-
 include/NazaraUtils/Signal.inl | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..a15f53b 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -35,7 +35,7 @@ namespace Nz
 			Signal();
 			Signal(const Signal&);
 			Signal(Signal&& signal) noexcept;
-			~Signal() = default;
+			~Signal();
 
 			void Clear();
 
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 98168f3..10f2005 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -46,6 +46,16 @@ namespace Nz
 		operator=(std::move(signal));
 	}
 
+	/*!
+	* \brief Destructs the signal, disconnecting every slot
+	*/
+
+	template<typename... Args>
+	Signal<Args...>::~Signal()
+	{
+		Clear();
+	}
+
 	/*!
 	* \brief Clears the list of actions attached to the signal
 	*/
@@ -53,6 +63,7 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		// Slots may own connections to our other slots, make sure they won't touch us while being destroyed
 		for (SlotPtr& slot : m_slots)
 			slot->signal = nullptr;
 
@@ -211,6 +222,10 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		// Slots may own connections to our other slots, make sure they won't touch us while being destroyed
+		for (SlotPtr& slot : m_slots)
+			slot->signal = nullptr;
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 
-- 
2.43.0


From c9664c4d085d6c6159752832d6af24c1a4bd76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 37/53] fix: Result<void, E> moved from the lvalue given to Err

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..3ba89bb 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::in_place, std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 4b336533bdba3386ba823380e96c9f81b7d0da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 38/53] fix: Result<void, E> was a success when built as an
 error without arguments

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 3ba89bb..085b290 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -290,7 +290,7 @@ namespace Nz
 	template<typename E>
 	template<typename... Args>
 	constexpr Result<void, E>::Result(ErrorTag, Args&&... args) :
-	m_error(std::forward<Args>(args)...)
+	m_error(std::in_place, std::forward<Args>(args)...)
 	{
 	}
 
-- 
2.43.0


From eb8a839e91d371041a005e4b98d840bfee626898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 39/53] fix: assigning an lvalue to a MovableValue moved from
 it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From f5004e863fb074600c61b271ce87d1b7e05dc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 40/53] fix: in-place PrivateImpl destroyed its object on
 self-assignment

---
 include/NazaraUtils/PrivateImpl.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..21254f7 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,6 +91,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), *pimpl.Get());
 
@@ -100,6 +103,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), std::move(*pimpl.Get()));
 
-- 
2.43.0


From 4c914b5969f9d458565690406217a824339436d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 41/53] fix: copying an empty PrivateImpl dereferenced a null
 pointer

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 21254f7..20498b5 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -137,7 +137,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -231,6 +232,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From 89db05ba48cc27a8cbd423b0ada5693b280bf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 42/53] fix: PrivateImpl of a non-assignable type copied its
 deleted object on self-assignment and deleted it twice when the copy threw

---
 include/NazaraUtils/PrivateImpl.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 20498b5..b93d51a 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -247,8 +247,10 @@ namespace Nz
 		}
 		else
 		{
+			// Copy first, pimpl may be this and the copy may throw
+			T* copy = new T(*pimpl);
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = copy;
 		}
 
 		return *this;
-- 
2.43.0


From e8a7e2fc45410c0ad533ffe52e0df0816de106b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 43/53] fix: CallOnExit::CallAndReset called its functor a
 second time when it threw or used the object again

---
 include/NazaraUtils/CallOnExit.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..cccf5c2 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -39,10 +39,14 @@ namespace Nz
 	template<typename F>
 	void CallOnExit<F>::CallAndReset()
 	{
-		if (m_functor)
-			(*m_functor)();
+		if (!m_functor)
+			return;
 
+		// Reset first: the functor may throw or use this object
+		F functor(std::move(*m_functor));
 		m_functor.reset();
+
+		functor();
 	}
 
 	/*!
-- 
2.43.0


From 61d516fe55928b15482c04714e69e110fd38b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 44/53] fix: both sides of a CallOnExit move assignment called
 the functor

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index cccf5c2..06bd56c 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -59,5 +59,27 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Moves the function of another CallOnExit, which won't call it anymore
+	* \return A reference to this
+	*
+	* \param callOnExit CallOnExit to move in this
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this != &callOnExit)
+		{
+			m_functor.reset();
+			if (callOnExit.m_functor)
+			{
+				m_functor.emplace(std::move(*callOnExit.m_functor));
+				callOnExit.m_functor.reset();
+			}
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From 040d7054c894f24951ab369522037cf3a322ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 45/53] fix: FunctionRef could not refer to a const functor

---
 include/NazaraUtils/FunctionRef.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..10f613a 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		m_functor = (void*)(std::addressof(f)); //< the callback restores the type (f may be const or a function)
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 62a97391b6aaf8869345595bcb6c19594b7c6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 46/53] fix: EnumArray key-value iterators could not be offset

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..db4df3a 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,15 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From 7dc98704bf9ea7eb96c1c52a8b2c7ea24e2b7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 47/53] fix: EnumArray key-value iterators compound assignments
 returned a copy

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..5dc73ac 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -79,8 +79,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index db4df3a..c9638f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -108,14 +108,14 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From c9ac55f45f6404df419953eb277b8a24cb222763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 48/53] fix: SparsePtr computed offsets in the type of the
 index, wrapping unsigned indices with negative strides and large products

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 723e50330dbe93a5b1f289f79666cc1f900f95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 49/53] fix: SparsePtr conversion did not adjust pointers to
 secondary base classes

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..44dbbbd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From 356429463ed741c3dbca667b407f64b7adccbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 50/53] fix: NazaraAssert and NazaraAssertMsg captured the else
 of the statement around them

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From 89f1cb083d91dc681131a2d0683dad501038491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 51/53] fix: IsPow2 overflowed on the lowest signed value

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 8264320..3914b28 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -822,7 +822,7 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr bool IsPow2(T value) noexcept
 	{
 		NazaraAssert(value != 0);
-		return (value & (value - 1)) == 0;
+		return value > 0 && (value & (value - 1)) == 0;
 	}
 
 	/*!
-- 
2.43.0


From 73554ff248e96a604b35d847ba1fcea751a42fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 52/53] fix: SafeCast never checked the dynamic type of
 polymorphic pointers and references

The conditions looked at the pointer and reference types themselves, which are never a base of each other, so an invalid downcast went through unnoticed in debug.
---
 include/NazaraUtils/Algorithm.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 60552c6..e6403ae 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -254,7 +254,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
 				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType> && std::is_polymorphic_v<BaseFromType>)
 				{
 					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
 					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
@@ -263,12 +263,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
+				using BaseFromType = std::remove_pointer_t<FromType>;
 				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType> && std::is_polymorphic_v<BaseFromType>)
 				{
 					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
-- 
2.43.0


From dce85d4eb6aa9a86e35f7919c8fe9ecb74e9d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:00 +0000
Subject: [PATCH 53/53] fix: StackVector and range erasure required
 default-constructible elements

StackVector::clear and the range erase of StackVector, FixedVector and
HybridVector called resize(), which instantiates default construction: they
(and the destructor and move assignment of StackVector) did not compile for
elements without a default constructor, although they only remove elements.
---
 include/NazaraUtils/FixedVector.inl | 3 ++-
 include/NazaraUtils/StackVector.inl | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index aefe92f..6032114 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -489,7 +489,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back();
 
 		return iterator(data(index));
 	}
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index c7be8cf..bae4802 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -86,7 +86,11 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		// can't use resize(0); since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size = 0;
 	}
 
 	template<typename T>
@@ -205,7 +209,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back();
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0

