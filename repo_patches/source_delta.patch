From cf3516b67ccc12114887a83a3003531762dae727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 01/76] fix: refuse to hand out a page for writing when the
 database is read-only

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..1e2a32d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -91,6 +91,11 @@ char*  T_1CD::get_block_for_write(uint32_t block_number, bool read)
 
 
 	if(!fs) return nullptr;
+	if(readonly)
+	{
+		throw DetailedException("Попытка записи в файл в режиме \"Только чтение\"")
+			.add_detail("Индекс блока", to_hex_string(block_number));
+	}
 	if(block_number > length)
 	{
 		throw DetailedException("Попытка получения блока за пределами файла базы.")
-- 
2.43.0


From d00c3977357e7797a8a1ab95f464284616281a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 02/76] fix: reject reads past the end of an object when its
 data are cached, and a block index equal to the count

---
 src/tool1cd/V8Object.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..5f91a55 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -412,7 +412,18 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
-	if(data) memcpy(buf, data + _start, _length);
+	if(data)
+	{
+		if(_start + _length > get_len())
+		{
+			throw DetailedException("Попытка чтения данных за пределами объекта")
+				.add_detail("Номер блока объекта", to_hex_string(block))
+				.add_detail("Длина объекта", get_len())
+				.add_detail("Начало читаемых данных", _start)
+				.add_detail("Длина читаемых данных", _length);
+		}
+		memcpy(buf, data + _start, _length);
+	}
 	else
 	{
 		if(type == v8objtype::free80)
@@ -1362,7 +1373,7 @@ uint32_t V8Object::get_numblocks() const
 
 uint32_t V8Object::get_block_by_index(const uint32_t index) const
 {
-	if(index > numblocks) {
+	if(index >= blocks.size()) {
 		throw std::out_of_range("Индекс за границами массива блоков!");
 	}
 
-- 
2.43.0


From ea294f8d0b4fd07703f8e50232db92a08764a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 03/76] fix: reject an object whose page table does not fit in
 its header page

---
 src/tool1cd/V8Object.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 5f91a55..079b18b 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -31,6 +31,9 @@ V8Object* V8Object::last = nullptr;
 
 extern Registrator msreg_g;
 
+// количество номеров страниц в заголовочной странице объекта (формат до 8.3.8)
+static const uint32_t HEADER_BLOCKS_80 = sizeof(v8ob::blocks) / sizeof(uint32_t);
+
 //---------------------------------------------------------------------------
 void V8Object::garbage()
 {
@@ -128,7 +131,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			while(real_numblocks < HEADER_BLOCKS_80 && t->blocks[real_numblocks]) real_numblocks++;
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -146,6 +149,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			} else {
 				numblocks = 0;
 			}
+			if(numblocks > HEADER_BLOCKS_80)
+			{
+				delete t;
+				init();
+				throw DetailedException("Таблица размещения объекта больше его заголовочной страницы.")
+					.add_detail("Блок", to_hex_string(blockNum));
+			}
 
 			if(numblocks > 0) {
 				blocks.clear();
@@ -205,6 +215,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		else {
 			numblocks = 0;
 		}
+		if(numblocks > base->get_pagesize() / 4 - 6)
+		{
+			delete[] b;
+			init();
+			throw DetailedException("Таблица размещения объекта больше его заголовочной страницы.")
+				.add_detail("Блок", to_hex_string(blockNum));
+		}
 
 		if(numblocks > 0) {
 			blocks.clear();
@@ -248,7 +265,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
+		while(real_numblocks < base->get_pagesize() / 4 - 6 && t->blocks[real_numblocks]) real_numblocks++;
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
-- 
2.43.0


From 48ae7a53e871003fe72ff1b74ccd80bc369f6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 04/76] fix: copy exactly as many page numbers as the page list
 has room for

---
 src/tool1cd/V8Object.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 079b18b..728a4bd 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1164,7 +1164,7 @@ void V8Object::set_len(uint64_t _len)
 		len = _len;
 		if(numblocks > 0) {
 			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
+					  std::begin(b->blocks) + numblocks,
 					  blocks.begin());
 		}
 
@@ -1291,7 +1291,7 @@ void V8Object::set_len(uint64_t _len)
 		len = _len;
 		if(numblocks > 0) {
 			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
+					  std::begin(bd->blocks) + numblocks,
 					  blocks.begin());
 		}
 
@@ -1329,7 +1329,7 @@ void V8Object::set_block_as_free(uint32_t block_number)
 		real_numblocks++;
 		blocks.resize(real_numblocks);
 		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
+				  std::begin(ob->blocks) + real_numblocks,
 				  blocks.begin());
 	}
 
-- 
2.43.0


From 7fc389b890f963e504de9636d1158ce35753287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 05/76] fix: shrinking an object stops at its new length and
 uses its own header page

---
 src/tool1cd/V8Object.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 728a4bd..ff54f19 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1145,8 +1145,9 @@ void V8Object::set_len(uint64_t _len)
 		{
 			// Уменьшение длины объекта
 			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			while(cur_data_blocks > num_data_blocks)
 			{
+				cur_data_blocks--;
 				i = cur_data_blocks % 1023;
 				base->set_block_as_free(ot->blocks[i]);
 				ot->blocks[i] = 0;
@@ -1250,9 +1251,10 @@ void V8Object::set_len(uint64_t _len)
 			// Уменьшение длины объекта
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					i = cur_data_blocks % offsperpage;
 					base->set_block_as_free(bb->blocks[i]);
 					bb->blocks[i] = 0;
@@ -1260,14 +1262,15 @@ void V8Object::set_len(uint64_t _len)
 					{
 						base->set_block_as_free(bd->blocks[--numblocks]);
 						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+						if(numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 					}
 				}
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					base->set_block_as_free(bd->blocks[cur_data_blocks]);
 					bd->blocks[cur_data_blocks] = 0;
 				}
@@ -1284,6 +1287,7 @@ void V8Object::set_len(uint64_t _len)
 				}
 				fatlevel = 0;
 				bd->fatlevel = 0;
+				numblocks = num_data_blocks;
 			}
 
 		}
-- 
2.43.0


From 1c1fdcf4022450d0d90c690c94abe3ed7362868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 06/76] fix: a growing 8.3.8 object records its new pages

---
 src/tool1cd/V8Object.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index ff54f19..8c1df88 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1208,7 +1208,12 @@ void V8Object::set_len(uint64_t _len)
 		if(num_data_blocks > cur_data_blocks)
 		{
 			// Увеличение длины объекта
-			if(fatlevel == 0 && newfatlevel)
+			if(fatlevel == 0 && newfatlevel && numblocks == 0)
+			{
+				fatlevel = newfatlevel;
+				bd->fatlevel = newfatlevel;
+			}
+			else if(fatlevel == 0 && newfatlevel)
 			{
 				bl = base->get_free_block();
 				bb = (objtab838*)base->get_block_for_write(bl, false);
@@ -1218,7 +1223,7 @@ void V8Object::set_len(uint64_t _len)
 				bd->blocks[0] = bl;
 				numblocks = 1;
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
 			if(fatlevel)
 			{
@@ -1244,6 +1249,7 @@ void V8Object::set_len(uint64_t _len)
 					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
 					bd->blocks[cur_data_blocks] = bl;
 				}
+				numblocks = num_data_blocks;
 			}
 		}
 		else if(num_data_blocks < cur_data_blocks)
-- 
2.43.0


From 0c11b7ebe394cf2303120855bfddbef7eb82afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 07/76] fix: object data that end just past a table page are
 copied completely

---
 src/tool1cd/V8Object.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 8c1df88..dcd967d 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -363,11 +363,15 @@ char* V8Object::get_data()
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
+				if(l <= curlen)
+				{
+					l = 0;
+					break;
+				}
 				l -= curlen;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(!l) break;
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -386,11 +390,15 @@ char* V8Object::get_data()
 				{
 					curlen = ll > pagesize ? pagesize : ll;
 					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
+					if(ll <= curlen)
+					{
+						ll = 0;
+						break;
+					}
 					ll -= curlen;
 					tt += pagesize;
 				}
-				if(ll <= curlen) break;
+				if(!ll) break;
 			}
 		}
 		else
@@ -820,11 +828,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
 				if(_length <= curlen) {
+					_length = 0;
 					break;
 				}
 				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
@@ -917,11 +926,12 @@ bool V8Object::set_data(TStream* stream)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
 				if(_length <= curlen) {
+					_length = 0;
 					break;
 				}
 				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
-- 
2.43.0


From c740a18da7938aabd274f3a3be0de14ff00caec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 08/76] fix: freeing a page does not corrupt the 8.3.8 free
 page root

---
 src/tool1cd/V8Object.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index dcd967d..275c35c 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1329,6 +1329,13 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
+	if(type == v8objtype::free838)
+	{
+		// структура файла свободных страниц 8.3.8 пока не понятна: запись в него по структуре v8ob
+		// испортила бы его, поэтому освобождаемая страница просто остается неиспользуемой
+		return;
+	}
+
 	uint32_t j = len >> 10; // length / 1024
 	int32_t i = len & 0x3ff; // length % 1024
 
-- 
2.43.0


From b0a233fffbae858da8ab955a5efeb64c3b145c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 09/76] fix: deleting an object frees each of its pages exactly
 once

---
 src/tool1cd/Class_1CD.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 1e2a32d..bb20393 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1764,8 +1764,6 @@ bool T_1CD::delete_table(Table* tab)
 //---------------------------------------------------------------------------
 bool T_1CD::delete_object(V8Object* ob)
 {
-	objtab* b;
-
 	if(!ob) return true;
 
 	if(ob->get_block_number() == 1) {
@@ -1778,20 +1776,9 @@ bool T_1CD::delete_object(V8Object* ob)
 			.add_detail("Номер блока объекта", ob->get_block_number());
 	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		b = (objtab*)get_block(ob->get_block_by_index(i));
-		for(uint32_t j = 0; j < b->numblocks; j++) {
-			set_block_as_free(b->blocks[j]);
-		}
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_by_index(i));
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_number());
-	}
+	// освобождаются все страницы данных и размещения, затем один раз - заголовочная страница
+	ob->set_len(0);
+	set_block_as_free(ob->get_block_number());
 
 	delete ob;
 
-- 
2.43.0


From 17d3d5e2680bf5d101cced3ce2450f3aecee7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 10/76] fix: deleting a table and restoring lost tables write
 their changes to the file

---
 src/tool1cd/Class_1CD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index bb20393..871be20 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1758,6 +1758,8 @@ bool T_1CD::delete_table(Table* tab)
 
 	}
 
+	flush();
+
 	return res;
 }
 
@@ -1854,6 +1856,7 @@ void T_1CD::find_and_create_lost_tables()
 		}
 		root_object->set_data(b, root_object_len + numlosttables * 4);
 		delete[] b;
+		flush();
 
 	}
 
-- 
2.43.0


From fc3c5ae5c6645d8393288691b27ca70b22766970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 11/76] fix: lost objects are saved inside the requested folder

---
 src/tool1cd/Class_1CD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 871be20..7bf218b 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1881,7 +1881,7 @@ void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 			}
 			if(!block_is_find) {
 				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
+				find_v8obj->savetofile(lost_objects / ("block" + to_string(i)));
 			}
 		}
 	}
-- 
2.43.0


From df3b28e8607988901dfe2ea6c709ee3a7edc716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 12/76] fix: reject a database header with an impossible page
 size

---
 src/tool1cd/Class_1CD.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 7bf218b..a6073a5 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -305,6 +305,12 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		// допустимы степени двойки от 4К до 64К
+		if(pagesize < 0x1000 || pagesize > 0x10000 || (pagesize & (pagesize - 1)) != 0)
+		{
+			throw DetailedException("Недопустимая длина страницы базы")
+					.add_detail("Длина страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
-- 
2.43.0


From a7a6f161565346de834135fe37c0bba1e786906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 13/76] fix: reject a database file shorter than its header

---
 src/tool1cd/Class_1CD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index a6073a5..5e6f82a 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -265,7 +265,10 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	}
 
 	v8con* cont = new v8con;
-	base_file->Read(cont, sizeof(v8con));
+	if(base_file->Read(cont, sizeof(v8con)) != sizeof(v8con))
+	{
+		throw DetailedException("Файл не является базой 1С (длина файла меньше длины заголовка)");
+	}
 
 	if(memcmp(&(cont->sig), SIG_CON, 8) != 0)
 	{
-- 
2.43.0


From d13dd4dac0c006d37f26ddb5fc1e2a155ceb4a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 14/76] fix: closing a file stream twice is harmless

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..b492052 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -76,8 +76,10 @@ void TFileStream::Reopen()
 
 void TFileStream::Close()
 {
-	_stream->close();
-	_stream.reset();
+	if (_stream) {
+		_stream->close();
+		_stream.reset();
+	}
 }
 
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
-- 
2.43.0


From 12bac61c0427f059dba78912632674e5edaf3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 15/76] fix: a failed write to a file stream is reported, also
 after a short read

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..37349e6 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -208,10 +208,11 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-	if (_stream->bad()) {
+	if (_stream->fail()) {
 		string err(std::strerror(errno));
 		std::cerr << err << std::endl;
 		throw Exception(err);
-- 
2.43.0


From 0d346eec5a3bf06ce651071a52e2f56691d77029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 16/76] fix: a file stream opens its file in the requested mode
 and reports a failure to open it

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 38 ++++++++++++++---------
 src/tool1cd/SystemClasses/TFileStream.hpp |  3 ++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index b492052..19ed66b 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -26,28 +27,39 @@ namespace System {
 
 namespace Classes {
 
+static std::ios_base::openmode get_open_mode(const uint16_t fileMode)
+{
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	// файл, открываемый только для чтения, на запись не открывается
+	if (fileMode == fmCreate || (fileMode & fmOpenReadWrite)) {
+		mode |= std::ios::out;
+	}
+	return mode;
+}
+
 TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
 	: TWrapperStream(), filename(FileName)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	reopen_mode = get_open_mode(fileMode);
+	open_stream(boost::filesystem::path(filename), fileMode == fmCreate ? reopen_mode | std::ios::trunc : reopen_mode);
 	m_position = 0;
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
 	: TWrapperStream(), filename(path.string())
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
+	reopen_mode = get_open_mode(fileMode);
+	open_stream(path, fileMode == fmCreate ? reopen_mode | std::ios::trunc : reopen_mode);
+	m_position = 0;
+}
+
+void TFileStream::open_stream(const boost::filesystem::path &path, std::ios_base::openmode mode)
+{
 	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
+	if (!_stream->is_open()) {
+		throw Exception("Не удалось открыть файл " + filename);
+	}
 	reopen(_stream);
-	m_position = 0;
 }
 
 
@@ -68,9 +80,7 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	open_stream(boost::filesystem::path(filename), reopen_mode);
 }
 
 
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..3d9a498 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -58,6 +58,9 @@ public:
 protected:
 	std::string filename;
 	std::shared_ptr<std::fstream> _stream;
+	std::ios_base::openmode reopen_mode; // режим повторного открытия (без усечения файла)
+
+	void open_stream(const boost::filesystem::path &path, std::ios_base::openmode mode);
 };
 
 } // Classes
-- 
2.43.0


From 4d76ac664cc07f0a51e79db8a950856bda014c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 17/76] fix: a page that cannot be read completely is reported

---
 src/tool1cd/MemBlock.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/MemBlock.cpp b/src/tool1cd/MemBlock.cpp
index 5c37e22..d04ffc7 100644
--- a/src/tool1cd/MemBlock.cpp
+++ b/src/tool1cd/MemBlock.cpp
@@ -21,8 +21,19 @@
 
 #include "MemBlock.h"
 #include "Constants.h"
+#include "Common.h"
+#include "DetailedException.h"
 #include "SystemClasses/GetTickCount.hpp"
 
+static void read_page(std::shared_ptr<TFileStream> &fs, char *buf, uint32_t page_size, uint32_t block_num)
+{
+	if(fs->ReadBuffer(buf, page_size) != page_size)
+	{
+		throw DetailedException("Страница файла базы прочитана не полностью")
+			.add_detail("Индекс блока", to_hex_string(block_num));
+	}
+}
+
 std::shared_ptr<MemBlock> MemBlock::create(std::shared_ptr<TFileStream> &fs, uint32_t page_size, uint32_t block_num,
 bool for_write, bool read)
 {
@@ -43,7 +54,7 @@ bool for_write, bool read)
 			if(read)
 			{
 				fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-				fs->ReadBuffer(buf, page_size);
+				read_page(fs, buf, page_size, block_num);
 			}
 			else memset(buf, 0, page_size);
 		}
@@ -51,7 +62,7 @@ bool for_write, bool read)
 	else
 	{
 		fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-		fs->ReadBuffer(buf, page_size);
+		read_page(fs, buf, page_size, block_num);
 	}
 
 	std::shared_ptr<MemBlock> block(new MemBlock(page_size, block_num));
-- 
2.43.0


From f7251c0a55f72d162a7e1efee2ead430c6478511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 18/76] fix: an error message makes the exit code of the
 utility non-zero

---
 src/tool1cd/Messenger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..b3cc163 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,6 +44,9 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
 	if (mstate < minimal_state) {
 		return;
 	}
-- 
2.43.0


From cf9e42dd4635babf8fa1a3f541488b54ada810dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 19/76] fix: -noverbose suppresses console output

---
 src/tool1cd/Messenger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b3cc163..217df03 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -37,7 +37,9 @@ Messenger::Messenger()
 //---------------------------------------------------------------------------
 void Messenger::Status(const string &message)
 {
-	cout << message << endl;
+	if (!noverbose) {
+		cout << message << endl;
+	}
 	AddMessage(message, MessageState::Empty);
 }
 
@@ -51,6 +53,10 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 		return;
 	}
 
+	if (noverbose && logfile.empty()) {
+		return;
+	}
+
 	shared_ptr<ostream> output (&cerr, [](...){} );
 
 	if (!logfile.empty()) {
-- 
2.43.0


From 93b2acbd204024cc8db2fe5d7478b0346d5d9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 20/76] fix: a database that cannot be opened ends the utility
 with an error code, not an abort

---
 src/ctool1cd/App.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..322be6d 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -595,7 +595,21 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	}
+	catch (DetailedException &ex) {
+		ex.show();
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (Exception &ex) {
+		msreg_g.AddError(ex.Message());
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (...) {
+		msreg_g.AddError("Неизвестная ошибка.");
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
 
 	if (base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
-- 
2.43.0


From 5c3772d8b87ecb98744a4eecc1aa13ba46274e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 21/76] fix: the first version of a depot version range is
 taken whole

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 322be6d..48d6403 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -465,7 +465,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From 3e9f2d2ecb41ad201f799298c0c46baa708f1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 22/76] fix: removing quotes from a command line parameter
 always ends

---
 src/ctool1cd/ParseCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..6f656bc 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result = result.substr(0, result.size() - 1);
 	}
 	return result;
 }
-- 
2.43.0


From 9b7da05e9df515fc3ed72347577bb4738f468f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 23/76] fix: only the file being replaced is deleted, never a
 directory tree

---
 src/tool1cd/ConfigStorage.cpp                | 2 +-
 src/tool1cd/Messenger.cpp                    | 7 ++++++-
 src/tool1cd/SystemClasses/System.IOUtils.cpp | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..36f36b3 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -520,7 +520,7 @@ bool ConfigStorageTable::save_config(const boost::filesystem::path &file_name)
 	}
 
 	if(boost::filesystem::exists(file_name)) {
-		boost::filesystem::remove_all(file_name);
+		boost::filesystem::remove(file_name);
 	}
 
 	size_t prevj = 101;
diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index 217df03..2b987d9 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -74,7 +74,12 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 //---------------------------------------------------------------------------
 void Messenger::setlogfile(const string &_logfile)
 {
-	logfile = System::Ioutils::TPath::GetFullPath(_logfile);
+	string full_path = System::Ioutils::TPath::GetFullPath(_logfile);
+	if(boost::filesystem::is_directory(boost::filesystem::path(full_path))) {
+		AddError("Указанный лог-файл является каталогом.").with("Каталог", full_path);
+		return;
+	}
+	logfile = full_path;
 	if(FileExists(logfile)) DeleteFile(logfile);
 }
 
diff --git a/src/tool1cd/SystemClasses/System.IOUtils.cpp b/src/tool1cd/SystemClasses/System.IOUtils.cpp
index 7f268d0..ac94880 100644
--- a/src/tool1cd/SystemClasses/System.IOUtils.cpp
+++ b/src/tool1cd/SystemClasses/System.IOUtils.cpp
@@ -38,7 +38,7 @@ bool FileExists(const std::string &filename)
 
 void DeleteFile(const std::string &filename)
 {
-	boost::filesystem::remove_all(filename);
+	boost::filesystem::remove(filename);
 }
 
 void RemoveDir(const std::string &dirname)
-- 
2.43.0


From a3165543c46e9debd14c307924ad51dd506086b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 24/76] fix: reading a blob into a buffer never writes past the
 requested length

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..fcd932e 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -846,7 +846,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			memcpy(_buf, _curb + 6, _curlen);
+			memcpy(_buf, _curb + 6, std::min<uint32_t>(_curlen, _length - readed));
 			_buf += _curlen;
 			readed += _curlen;
 
-- 
2.43.0


From 7640338f8640c7b6a9eaddf5143d20c98dcad270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 25/76] fix: a cyclic blob chain is reported instead of being
 followed forever

---
 src/tool1cd/Table.cpp    | 14 ++++++++++++++
 src/tool1cd/V8Object.cpp |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index fcd932e..ce890d2 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -754,8 +754,15 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint32_t visited = 0;
 		while(_curblock)
 		{
+			if(++visited > _numblock)
+			{
+				throw DetailedException("Зацикливание цепочки блоков файла Blob")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
@@ -827,8 +834,15 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint32_t visited = 0;
 		while(_curblock)
 		{
+			if(++visited > _numblock)
+			{
+				throw DetailedException("Зацикливание цепочки блоков файла Blob")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 275c35c..62c6a94 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1494,8 +1494,15 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 	_curb = new char[0x100];
 	_curblock = _startblock;
+	uint32_t visited = 0;
 	while(_curblock)
 	{
+		if(++visited > _numblock)
+		{
+			throw DetailedException("Зацикливание цепочки блоков файла Blob")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Начальный блок", _startblock);
+		}
 		if(_curblock >= _numblock)
 		{
 			throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
-- 
2.43.0


From d3001ee87ad3738e748bf67622ce6d02435648ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 26/76] fix: blob offsets and object lengths above 4 GiB are
 not truncated

---
 src/tool1cd/Table.cpp    | 14 ++++++++------
 src/tool1cd/V8Object.cpp |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ce890d2..afb307f 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -731,7 +731,8 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen;
+	uint32_t _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -747,7 +748,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen)
+		if((uint64_t)_numblock << 8 != _filelen)
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 				.add_detail("Таблица", name)
 				.add_detail("Длина файла", to_hex_string(_filelen));
@@ -770,7 +771,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -811,7 +812,8 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen;
+	uint32_t _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -826,7 +828,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen) {
+		if((uint64_t)_numblock << 8 != _filelen) {
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 					.add_detail("Таблица", name)
 					.add_detail("Длина файла", to_hex_string(_filelen));
@@ -850,7 +852,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 62c6a94..f1b06f6 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1184,7 +1184,7 @@ void V8Object::set_len(uint64_t _len)
 	else if(type == v8objtype::data838)
 	{
 		offsperpage = base->get_pagesize() / 4;
-		maxlen = base->get_pagesize() * offsperpage * (offsperpage - 6);
+		maxlen = (uint64_t)base->get_pagesize() * offsperpage * (offsperpage - 6);
 		if(_len > maxlen)
 		{
 			throw DetailedException("Попытка установки длины файла больше максимальной")
@@ -1485,7 +1485,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 	}
 
 	_numblock = len >> 8;
-	if(_numblock << 8 != len)
+	if((uint64_t)_numblock << 8 != len)
 	{
 		throw DetailedException("Длина файла Blob не кратна 0x100")
 			.add_detail("Номер страницы файла", to_hex_string(block))
@@ -1510,7 +1510,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, (uint64_t)_curblock << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From 9290176722cd172e04e3c37793beacef5ec403c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 27/76] fix: record, blob and index positions above 4 GiB are
 computed in 64 bits

---
 src/tool1cd/Index.cpp    |  6 +++---
 src/tool1cd/Table.cpp    | 38 ++++++++++++++++++++------------------
 src/tool1cd/V8Object.cpp |  2 +-
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..68d70f3 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -822,7 +822,7 @@ void Index::write_index_record(const uint32_t phys_numrecord, const char* index_
 		tbase->get_file_index()->get_data(&k, 0, 4);
 		if(k)
 		{
-			block = k * pagesize;
+			block = (uint64_t)k * pagesize;
 			tbase->get_file_index()->get_data(&k, block, 4);
 			tbase->get_file_index()->set_data(&k, 0, 4);
 		}
@@ -972,7 +972,7 @@ void Index::write_index_record(const uint32_t phys_numrecord, const char* index_
 				tbase->get_file_index()->get_data(&k, 0, 4);
 				if(k)
 				{
-					new_last_block2 = k * pagesize;
+					new_last_block2 = (uint64_t)k * pagesize;
 					tbase->get_file_index()->get_data(&k, new_last_block2, 4);
 					tbase->get_file_index()->set_data(&k, 0, 4);
 				}
@@ -1069,7 +1069,7 @@ void Index::write_index_record(const uint32_t phys_numrecord, const char* index_
 					tbase->get_file_index()->get_data(&k, 0, 4);
 					if(k)
 					{
-						new_last_block2 = k << 12;
+						new_last_block2 = (uint64_t)k * pagesize;
 						tbase->get_file_index()->get_data(&k, new_last_block2, 4);
 						tbase->get_file_index()->set_data(&k, 0, 4);
 					}
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index afb307f..5861657 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -351,7 +351,7 @@ void Table::init(int32_t block_descr)
 	if(file_index)
 	{
 		m = file_index->get_len() / base->get_pagesize();
-		if(file_index->get_len() != m * base->get_pagesize())
+		if(file_index->get_len() != (uint64_t)m * base->get_pagesize())
 		{
 			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
 				.add_detail("Таблица", name)
@@ -362,7 +362,7 @@ void Table::init(int32_t block_descr)
 			buf = new uint32_t[num_indexes + 1];
 			file_index->get_data(buf, 0, buflen);
 
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
+			if((uint64_t)buf[0] * base->get_pagesize() >= file_index->get_len())
 			{
 				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
 					.add_detail("Таблица", name)
@@ -442,7 +442,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if((uint64_t)phys_numrecords * recordlen != file_data->get_len())
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -638,7 +638,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -648,7 +648,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
@@ -1062,7 +1062,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 //---------------------------------------------------------------------------
 uint64_t Table::get_file_offset(uint32_t phys_numrecord)
 {
-	uint32_t _offset = phys_numrecord * recordlen;
+	uint64_t _offset = (uint64_t)phys_numrecord * recordlen;
 	return file_data->get_fileoffset(_offset);
 }
 
@@ -1715,7 +1715,7 @@ void Table::delete_data_record(uint32_t phys_numrecord)
 
 	if(phys_numrecord == phys_numrecords - 1)
 	{
-		file_data->set_len(phys_numrecord * recordlen);
+		file_data->set_len((uint64_t)phys_numrecord * recordlen);
 		phys_numrecords--;
 	}
 	else
@@ -1737,7 +1737,7 @@ void Table::delete_data_record(uint32_t phys_numrecord)
 void Table::delete_blob_record(uint32_t blob_numrecord)
 {
 	int32_t prev_free_first;
-	int32_t i, j;
+	uint32_t i, j;
 
 	if(!edit)
 	{
@@ -1753,7 +1753,7 @@ void Table::delete_blob_record(uint32_t blob_numrecord)
 			.add_detail("Смещение удаляемой записи", blob_numrecord << 8);
 	}
 
-	if(blob_numrecord << 8 >= file_blob->get_len())
+	if((uint64_t)blob_numrecord << 8 >= file_blob->get_len())
 	{
 		throw DetailedException("Попытка удаления записи в файле file_blob за пределами файла.")
 			.add_detail("Таблица", name)
@@ -1769,8 +1769,8 @@ void Table::delete_blob_record(uint32_t blob_numrecord)
 	}
 
 	file_blob->get_data(&prev_free_first, 0, 4); // читаем предыдущее начало свободных блоков
-	for(i = blob_numrecord; i; file_blob->get_data(&i, i << 8, 4)) j = i; // ищем последний блок в цепочке удаляемых
-	file_blob->set_data(&prev_free_first, j << 8, 4); // устанавливаем в конец цепочки удаляемых блоков старое начало цепочки свободных блоков
+	for(i = blob_numrecord; i; file_blob->get_data(&i, (uint64_t)i << 8, 4)) j = i; // ищем последний блок в цепочке удаляемых
+	file_blob->set_data(&prev_free_first, (uint64_t)j << 8, 4); // устанавливаем в конец цепочки удаляемых блоков старое начало цепочки свободных блоков
 	file_blob->set_data(&blob_numrecord, 0, 4); // устанавливаем новое начало цепочки свободных блоков на начало удаляемых блоков
 }
 
@@ -1831,13 +1831,14 @@ void Table::write_data_record(uint32_t phys_numrecord, const TableRecord *rec)
 		file_data->set_data(b, 0, recordlen);
 		delete[] b;
 	}
-	file_data->set_data(rec, phys_numrecord * recordlen, recordlen);
+	file_data->set_data(rec, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
 uint32_t Table::write_blob_record(char* blob_record, uint32_t blob_len)
 {
-	uint32_t cur_block, cur_offset, prev_offset, first_block, next_block;
+	uint32_t cur_block, first_block, next_block;
+	uint64_t cur_offset, prev_offset;
 	uint16_t cur_len;
 	uint32_t zero = 0;
 
@@ -1869,7 +1870,7 @@ uint32_t Table::write_blob_record(char* blob_record, uint32_t blob_len)
 
 		if(prev_offset) file_blob->set_data(&cur_block, prev_offset, 4);
 
-		cur_offset = cur_block << 8;
+		cur_offset = (uint64_t)cur_block << 8;
 		next_block = 0;
 		if(cur_offset < file_blob->get_len()) file_blob->get_data(&next_block, cur_offset, 4);
 
@@ -1880,7 +1881,7 @@ uint32_t Table::write_blob_record(char* blob_record, uint32_t blob_len)
 		if(!next_block) next_block = file_blob->get_len() >> 8;
 		prev_offset = cur_offset;
 	}
-	if(next_block << 8 < file_blob->get_len()) file_blob->set_data(&next_block, 0, 4);
+	if((uint64_t)next_block << 8 < file_blob->get_len()) file_blob->set_data(&next_block, 0, 4);
 	else file_blob->set_data(&zero, 0, 4);
 
 	return first_block;
@@ -1889,7 +1890,8 @@ uint32_t Table::write_blob_record(char* blob_record, uint32_t blob_len)
 //---------------------------------------------------------------------------
 uint32_t Table::write_blob_record(TStream* bstr)
 {
-	uint32_t cur_block, cur_offset, prev_offset, first_block, next_block;
+	uint32_t cur_block, first_block, next_block;
+	uint64_t cur_offset, prev_offset;
 	uint16_t cur_len;
 	uint32_t blob_len;
 	uint32_t zero;
@@ -1925,7 +1927,7 @@ uint32_t Table::write_blob_record(TStream* bstr)
 
 		if(prev_offset) file_blob->set_data(&cur_block, prev_offset, 4);
 
-		cur_offset = cur_block << 8;
+		cur_offset = (uint64_t)cur_block << 8;
 		next_block = 0;
 		if(cur_offset < file_blob->get_len()) file_blob->get_data(&next_block, cur_offset, 4);
 
@@ -1936,7 +1938,7 @@ uint32_t Table::write_blob_record(TStream* bstr)
 		if(!next_block) next_block = file_blob->get_len() >> 8;
 		prev_offset = cur_offset;
 	}
-	if(next_block << 8 < file_blob->get_len()) file_blob->set_data(&next_block, 0, 4);
+	if((uint64_t)next_block << 8 < file_blob->get_len()) file_blob->set_data(&next_block, 0, 4);
 	else file_blob->set_data(&zero, 0, 4);
 
 	return first_block;
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index f1b06f6..fbe5577 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -622,7 +622,7 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
-- 
2.43.0


From 218459fc63bde0c1a2171dfa5f32593860d38290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 28/76] fix: configuration file names are split exactly at the
 separator

---
 src/tool1cd/ConfigStorage.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 36f36b3..0a7fe95 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -126,7 +126,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	V8Catalog* c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
+		V8File *f = c->get_file(fname.substr(0, i));
 		if(!f) {
 			return nullptr;
 		}
@@ -164,7 +164,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -202,7 +202,7 @@ bool ConfigStorageCFFile::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 	V8File *f = cat->get_file(fname);
 	return f != nullptr;
@@ -422,7 +422,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -443,7 +443,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 		}
 		V8Catalog *parent_cat = top_file->cat;
 		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
+			V8File *f = parent_cat->get_file(fname.substr(0, i));
 			if (!f) {
 				// TODO: бросить исключение???
 				return nullptr;
@@ -564,7 +564,7 @@ bool ConfigStorageTable::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 
 	return files.find(LowerCase(fname)) != files.end();
@@ -641,7 +641,7 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate);
 				name = name.substr(0, m);
 				BinaryGuid update_guid = BinaryGuid(update_id);
 				if (!dynup.empty()) {
@@ -791,8 +791,8 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 
 		m = s.rfind(spoint);
 		if (m != string::npos) {
-			name = s.substr(0, m - 1);
-			ext = s.substr(m + 1, s.size() - m);
+			name = s.substr(0, m);
+			ext = s.substr(m + 1);
 		}
 		else
 		{
@@ -807,8 +807,8 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 
 		m = name.find(sdynupdate);
 		if (m != string::npos) {
-			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
+			string s = name.substr(m + lsdynupdate);
+			name = name.substr(0, m);
 			string_to_GUID(s, &g);
 			if (!dynup.empty())
 			{
@@ -1000,7 +1000,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 	{
 		if (EqualIC(ptf.first.substr(0, struid_len), struid)) {
 			TableFile *tf = ptf.second;
-			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len, tf->name.size() - struid_len - 1));
+			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len));
 			if (EqualIC(pcf->name, "configinfo")) {
 				configinfo = pcf;
 			}
@@ -1032,7 +1032,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 		files["configinfo"] = configinfo;
 	}
 	else {
-		config_info_path = present + "\\" + struid_len + "configinfo";
+		config_info_path = present + "\\" + struid + "configinfo";
 	}
 
 	configinfo->open();
-- 
2.43.0


From 1def41ce2b670e61863deaeb8d4ca14ff68e31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 29/76] fix: a malformed GUID can be handled as any other error
 of the library

---
 src/tool1cd/BinaryGuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryGuid.cpp b/src/tool1cd/BinaryGuid.cpp
index 59ae49a..4cecad3 100644
--- a/src/tool1cd/BinaryGuid.cpp
+++ b/src/tool1cd/BinaryGuid.cpp
@@ -74,7 +74,7 @@ bool BinaryGuid::is_empty() const
 	return true;
 }
 
-class WrongGuidPresentation : DetailedException {
+class WrongGuidPresentation : public DetailedException {
 public:
 	WrongGuidPresentation(const std::string &presentation)
 		: DetailedException("Переданный параметр не может быть распознан как GUID")
-- 
2.43.0


From 5a51a0487d0291cd64e38742a3957532f61ffb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 30/76] fix: the modification time of a container file is read
 from its own field

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..737a7d7 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -338,7 +338,7 @@ void V8Catalog::initialize()
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
 				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
 				delete[] _temp_buf;
-- 
2.43.0


From 44176a967d1c2f5a50930919e6ba9f4666007658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 31/76] fix: reading a container block ends at its length,
 whatever its page chain says

---
 src/tool1cd/cfapi/V8Catalog.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 737a7d7..ce59490 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -61,11 +61,14 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
+	if(readlen <= 0) {
+		return stream_to;
+	}
 	stream_to->CopyFrom(stream_from, readlen);
 
 	int32_t pos = readlen;
 
-	while(start != LAST_BLOCK) {
+	while(start != LAST_BLOCK && pos < len) {
 		stream_from->Seek(start, soFromBeginning);
 		stream_from->Read(&block_header, block_header.size());
 
@@ -74,6 +77,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
+		if(readlen <= 0) {
+			break;
+		}
 		stream_to->CopyFrom(stream_from, readlen);
 		pos += readlen;
 	}
-- 
2.43.0


From b85bea005b49acdb36ca85e3e1b34bc524a73c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 32/76] fix: the file list of a container does not use deleted
 files

---
 src/tool1cd/cfapi/V8Catalog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index ce59490..78acc4d 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -366,6 +366,7 @@ void V8Catalog::initialize()
 			f = f->get_next();
 		}
 		while(first) delete first;
+		_prev = nullptr;
 
 		iscatalog = false;
 		iscatalogdefined = true;
@@ -394,11 +395,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* next = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = next;
 	}
 	Lock->Release();
 }
-- 
2.43.0


From ac5b2b34a2b0b1abe87418ac2e9a1472fae4a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 33/76] fix: a compressed stream is finished for every source
 length

---
 src/tool1cd/UZLib.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..e294dbc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,9 +61,6 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
 		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
-- 
2.43.0


From b2f96e5fa2e9cba4882238537c96fb9dfccf3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/76] fix: truncated compressed data are reported, and a copy
 made instead starts from scratch

---
 src/tool1cd/TableRecord.cpp | 2 ++
 src/tool1cd/UZLib.cpp       | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..ce7ff94 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -188,6 +188,8 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		try {
 			ZInflateStream(&in, out);
 		} catch (ZError) {
+			out->Seek(0, soFromBeginning);
+			out->SetSize(0);
 			out->CopyFrom(&in, 0);
 		}
 	}
diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index e294dbc..8e1d697 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -114,6 +114,8 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 	ret = inflateInit2(&strm, -MAX_WBITS);
 
+	bool has_data = false;
+
 	/* decompress until deflate stream ends or end of file */
 	do {
 		
@@ -121,6 +123,7 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 		if (strm.avail_in == 0) break;
 
+		has_data = true;
 		strm.next_in = srcBuf.get();
 
 		/* run inflate() on input until output buffer not full */
@@ -157,6 +160,9 @@ void ZInflateStream(TStream* src, TStream* dst)
 	/* clean up and return */
 	(void)inflateEnd(&strm);
 
+	if (has_data && ret != Z_STREAM_END) {
+		throw ZError( "Unexpected end of the compressed data" );
+	}
 }
 
 
@@ -167,6 +173,8 @@ void ZInflateOrCopy(TStream *src, TStream *dst)
 		ZInflateStream(src, dst);
 
 	} catch (ZError &) {
+		dst->Seek(0, soFromBeginning);
+		dst->SetSize(0);
 		dst->CopyFrom(src, 0);
 	}
 }
-- 
2.43.0


From 4f00d19fc91497334cb69927bb2b94f62d897a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 35/76] fix: lines of base64 text end with CR LF, not with a
 NUL

---
 src/tool1cd/Base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..8bb475d 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -39,6 +39,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 {
 	unsigned char in[3];
 	WCHART out[4];
+	const WCHART line_end[2] = {'\r', '\n'};
 	int64_t i;
 	//int len, blocksout = 0;
 	int blocksout = 0;
@@ -50,7 +51,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(line_end, sizeof(line_end));
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +66,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(line_end, sizeof(line_end));
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From d8365a1d463da6695bf74f3fd5687228537ce529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 36/76] fix: every special character of a value is escaped in
 XML

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From 991722ec36c8e2c69202b4ca256145b1aa2b5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 37/76] fix: BLOBs exported next to XML are saved each in its
 own file of the BLOB folder

---
 src/tool1cd/Table.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 5861657..08af525 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -930,7 +930,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
@@ -1020,13 +1020,17 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 					if(repeat_count)
 					{
 						outputvalue += "_";
-						outputvalue += repeat_count + 1;
+						outputvalue += to_string(repeat_count + 1);
 					}
 
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					// значения полей записи не должны выводить путь за пределы каталога
+					std::replace(outputvalue.begin(), outputvalue.end(), '/', '_');
+					std::replace(outputvalue.begin(), outputvalue.end(), '\\', '_');
+					if(!field->save_blob_to_file(rec.get(), (dir / outputvalue).string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
+					} else {
+						outputvalue = toXML(outputvalue);
 					}
 				}
 				else outputvalue = "{ERROR}";
-- 
2.43.0


From b6bb9dd6dbd96bffe831e9f5c6f05e84a1ba56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 38/76] fix: importing a table sets the version of its objects
 in the layout of the database format

---
 src/tool1cd/Class_1CD.cpp | 17 ++++-------------
 src/tool1cd/Table.cpp     | 17 ++++-------------
 src/tool1cd/V8Object.cpp  | 14 ++++++++++++++
 src/tool1cd/V8Object.h    |  1 +
 4 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5e6f82a..74fab3e 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1222,7 +1222,6 @@ bool T_1CD::create_table(const string &path)
 	uint32_t i;
 	int32_t j;
 	export_import_table_root* root;
-	v8ob* ob;
 	V8Object* descr_table;
 	V8Object* file_data;
 	V8Object* file_blob;
@@ -1292,9 +1291,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_data = new V8Object(this);
 		file_data->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_data->get_block_number(), true);
-		ob->version.version_1 = root->data_version_1;
-		ob->version.version_2 = root->data_version_2;
+		file_data->set_current_version(root->data_version_1, root->data_version_2);
 		delete f;
 	}
 
@@ -1312,9 +1309,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_blob = new V8Object(this);
 		file_blob->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_blob->get_block_number(), true);
-		ob->version.version_1 = root->blob_version_1;
-		ob->version.version_2 = root->blob_version_2;
+		file_blob->set_current_version(root->blob_version_1, root->blob_version_2);
 		delete f;
 	}
 
@@ -1332,9 +1327,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_index = new V8Object(this);
 		file_index->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_index->get_block_number(), true);
-		ob->version.version_1 = root->index_version_1;
-		ob->version.version_2 = root->index_version_2;
+		file_index->set_current_version(root->index_version_1, root->index_version_2);
 		delete f;
 	}
 
@@ -1352,9 +1345,7 @@ bool T_1CD::create_table(const string &path)
 		if(fopen)
 		{
 			descr_table = new V8Object(this);
-			ob = (v8ob*)get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root->descr_version_1;
-			ob->version.version_2 = root->descr_version_2;
+			descr_table->set_current_version(root->descr_version_1, root->descr_version_2);
 
 			string descr = from_unicode_stream(*f);
 			delete f;
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 08af525..6349e1d 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1190,7 +1190,6 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	TFileStream* f;
 	bool fopen;
-	v8ob* ob;
 
 	bool descr_changed = false;
 
@@ -1228,9 +1227,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
+			file_data->set_current_version(root.data_version_1, root.data_version_2);
 			delete f;
 		}
 	}
@@ -1255,9 +1252,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
+			file_blob->set_current_version(root.blob_version_1, root.blob_version_2);
 			delete f;
 		}
 	}
@@ -1282,9 +1277,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
+			file_index->set_current_version(root.index_version_1, root.index_version_2);
 			delete f;
 		}
 	}
@@ -1306,9 +1299,7 @@ void Table::import_table(const boost::filesystem::path &path)
 		if(fopen)
 		{
 			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
+			descr_table->set_current_version(root.descr_version_1, root.descr_version_2);
 
 			auto buf_size = f->GetSize();
 			char *buf = new char[buf_size];
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index fbe5577..e9d100e 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1442,6 +1442,20 @@ _version V8Object::get_current_version() const
 	return version;
 }
 
+//---------------------------------------------------------------------------
+void V8Object::set_current_version(uint32_t version_1, uint32_t version_2)
+{
+	// смещение версии в заголовочной странице зависит от формата базы
+	char *page = base->get_block_for_write(block, true);
+	_version *page_version = base->get_version() < db_ver::ver8_3_8_0
+		? &((v8ob*)page)->version
+		: &((v838ob_data*)page)->version;
+	page_version->version_1 = version_1;
+	page_version->version_2 = version_2;
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+}
+
 //---------------------------------------------------------------------------
 V8Object* V8Object::get_first()
 {
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..dcb742a 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -122,6 +122,7 @@ public:
 	void get_version(_version* ver); // получает сохраненную версию объекта
 	void write_new_version(); // записывает новую версию объекта
 	_version get_current_version() const;
+	void set_current_version(uint32_t version_1, uint32_t version_2);
 
 	V8Object* get_next();
 
-- 
2.43.0


From b944013a1182d27f42f9ce354230096d98aaebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 39/76] fix: the description of a created table is written as
 it is encoded; a broken mask of users.usr is reported

---
 src/tool1cd/Class_1CD.cpp | 5 ++---
 src/tool1cd/Field.cpp     | 9 ++++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 74fab3e..75dc20b 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1218,7 +1218,6 @@ string from_unicode_stream(TStream &f)
 bool T_1CD::create_table(const string &path)
 {
 	TFileStream* f;
-	bool fopen;
 	uint32_t i;
 	int32_t j;
 	export_import_table_root* root;
@@ -1342,7 +1341,6 @@ bool T_1CD::create_table(const string &path)
 			throw DetailedException("Ошибка открытия файла импорта таблицы descr")
 				.add_detail("Файл", path_descr.string());
 		}
-		if(fopen)
 		{
 			descr_table = new V8Object(this);
 			descr_table->set_current_version(root->descr_version_1, root->descr_version_2);
@@ -1363,7 +1361,8 @@ bool T_1CD::create_table(const string &path)
 			descr += ",";
 			descr += file_index ? to_string(file_index->get_block_number()) : "0";
 			descr += "}\n}";
-			descr_table->set_data(descr.c_str(), descr.size() * 2);
+			auto descr_buf = TEncoding::Unicode->fromUtf8(descr);
+			descr_table->set_data(descr_buf.data(), descr_buf.size());
 
 			i = root_object->get_len();
 			char *buf = new char[i + 4];
diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..2baf953 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -280,7 +280,14 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = stream_size ? (unsigned char)_bb[0] : 0;
+			if(xor_mask_size == 0 || xor_mask_size + 1 > stream_size)
+			{
+				delete[] _bb;
+				throw DetailedException("Ошибка чтения данных users.usr. Неверная длина маски")
+					.add_detail("Таблица", tabname)
+					.add_detail("Поле", name);
+			}
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
-- 
2.43.0


From cb2856e43c1efd085b3dbcfec9c8b86d3cf38d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 40/76] fix: partial export from a repository compares and
 saves the object's own data

---
 src/tool1cd/save_part_depot_config.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..23ffba3 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -297,8 +297,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 
 										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
 										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
+											table_history->readBlob(in, b2.blob_start, b2.blob_length);
 											inreaded = true;
 											if (in->GetSize() == out->GetSize()) {
 												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
@@ -310,7 +309,6 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 									else if(depotVer >= depot_ver::Ver6)
 									{
 										// TODO: тип под Datahash
-									}
 										if (memcmp(rech2->get_data(fldh_datahash)
 												, rech1->get_data(fldh_datahash)
 												, fldh_datahash->get_length()) == 0) {
-- 
2.43.0


From fca2fff1f7c0658057a63c5397c5d732b6988019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 41/76] fix: the list of deleted objects is written into the
 export folder

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 23ffba3..a3b2b64 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -494,7 +494,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From 61614b7b3b91108d9c350fda8aa65b8e33a8028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 42/76] fix: a repository without history is exported without a
 crash

---
 src/tool1cd/save_depot_config.cpp      | 4 ++++
 src/tool1cd/save_part_depot_config.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..3b37299 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -281,6 +281,10 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 			rech2 = table_history->get_record(num_rec);
 		}
 
+		if (rech2 == nullptr) {
+			break; // таблица пуста
+		}
+
 		if (rech2->get<BinaryGuid>(fldh_objid) != curobj || iHistory_Index == HistoryIndex_numrec) {
 			// это новый объект или конец таблицы
 			if(!lastremoved)
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a3b2b64..f9ddd38 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -249,6 +249,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 			rech = table_history->get_record(i);
 		}
 
+		if (rech == nullptr) {
+			break; // таблица пуста
+		}
+
 		if (rech->get<BinaryGuid>(fldh_objid) != curobj || history_iterator == history_records)
 		{ // это новый объект или конец таблицы
 			if(history_iterator)
-- 
2.43.0


From e12a1b6e09b2839c452102ee80cb528968b9c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 43/76] fix: a table export whose root file cannot be written
 is reported

---
 src/tool1cd/Table.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 6349e1d..93d4871 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1158,10 +1158,9 @@ void Table::export_table(const boost::filesystem::path &path) const
 	}
 	else root.has_descr = false;
 
-	try {
+	{
 		TFileStream f(dir / "root", fmCreate|fmShareDenyNone);
 		f.Write(&root, sizeof(export_import_table_root));
-	} catch(...) {
 	}
 
 	if (file_data) {
-- 
2.43.0


From d28863fca048234c1f4ba37514017646c546cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 44/76] fix: a container whose table of contents cannot be
 written is reported

---
 src/tool1cd/cfapi/V8Catalog.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 78acc4d..bff4a26 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -25,6 +25,9 @@
 #include "../UZLib.h"
 #include "../Common.h"
 #include "../SystemClasses/String.hpp"
+#include "../MessageRegistration.h"
+
+extern Registrator msreg_g;
 
 using namespace std;
 using namespace System;
@@ -713,6 +716,7 @@ V8Catalog::~V8Catalog()
 			}
 			catch(...)
 			{
+				msreg_g.AddError("Ошибка записи оглавления контейнера.");
 			}
 			delete fat;
 		}
-- 
2.43.0


From d773ab371a87e4af05097ecf9ca58e5727e7ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 45/76] fix: a file stream that is cut is cut in the file, too

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 13 +++++++++++++
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 19ed66b..5a46573 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -92,6 +92,19 @@ void TFileStream::Close()
 	}
 }
 
+void TFileStream::SetSize(int64_t NewSize)
+{
+	if (NewSize < GetSize() && (reopen_mode & std::ios::out)) {
+		Reopen();
+		_stream->flush();
+		boost::filesystem::resize_file(boost::filesystem::path(filename), NewSize);
+	}
+	TWrapperStream::SetSize(NewSize);
+	if (m_position > NewSize) {
+		m_position = NewSize;
+	}
+}
+
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
 {
 	Reopen();
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index 3d9a498..caaf9c5 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -52,6 +52,7 @@ public:
 
 	virtual void Close() override;
 	virtual void Reopen();
+	virtual void SetSize(int64_t NewSize) override;
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 
-- 
2.43.0


From 1e1a454b290c5bba912cbcc7c9388f7a36fe361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 46/76] fix: a seek outside a stream is refused

---
 src/tool1cd/SystemClasses/TStream.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 37349e6..8d2d5f9 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -59,18 +59,17 @@ int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
 	if (Origin == soFromBeginning) {
 
-		if (offset > GetSize()) {
+		if (offset < 0 || offset > GetSize()) {
 			throw Exception("Wrong offset");
 		}
 		m_position = offset;
 
 	} else if (Origin == soFromEnd) {
 
-		m_position = GetSize() - offset;
-
-		if (GetSize() < offset) {
+		if (offset < 0 || offset > GetSize()) {
 			throw Exception("Wrong offset");
 		}
+		m_position = GetSize() - offset;
 
 	} else {
 
-- 
2.43.0


From d17e43accee0f6468ed5172a50fdaf0a5e69ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 47/76] fix: copying from an exhausted stream copies nothing

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 8d2d5f9..accf4b0 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -108,6 +108,9 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
+	if (resultCount <= 0) {
+		return 0; // Write с нулевым количеством записывает весь буфер
+	}
 	return Write(_data, resultCount);
 }
 
-- 
2.43.0


From b99671ba3d79837b4bccdbcedf7e9ca541cb8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 48/76] fix: a truncated pack file or index is reported

---
 src/tool1cd/Packdata.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 782ff81..6a5cbe0 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -35,7 +35,10 @@ Packdata::Packdata(boost::filesystem::path& file_path) {
 		uint32_t count;
 		in->Read(&count, sizeof(count));
 		datahashes.resize(count);
-		in->Read(datahashes.data(), count * sizeof(record_data_hash));
+		int64_t datalen = int64_t(count) * sizeof(record_data_hash);
+		if(in->Read(datahashes.data(), datalen) != datalen) {
+			throw DetailedException("Индекс упакованных данных обрезан");
+		}
 	}
 	catch (...) {
 		throw DetailedException("Ошибка открытия файла")
@@ -62,9 +65,16 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 		if(memcmp(datahash, record.datahash, DATAHASH_FIELD_LENGTH) == 0) {
 			pack->Seek(record.offset, soBeginning);
 			int64_t packlen = 0;
-			pack->Read(&packlen, sizeof(packlen));
+			if(pack->Read(&packlen, sizeof(packlen)) != sizeof(packlen) || packlen < 0 || packlen > pack->GetSize() - pack->GetPosition()) {
+				delete buffer;
+				throw DetailedException("Ошибка чтения упакованных данных")
+						.add_detail("Смещение", record.offset);
+			}
+			delete buffer;
 			buffer = new TTempStream;
-			buffer->CopyFrom(pack.get(), packlen);
+			if(packlen != 0) {
+				buffer->CopyFrom(pack.get(), packlen);
+			}
 			buffer->Close();
 			found = true;
 		}
-- 
2.43.0


From bdebf30bdd88f783fd8389f01bd38a0402e0a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 49/76] fix: an incomplete data hash is not looked up in the
 packs

---
 src/tool1cd/PackDirectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/PackDirectory.cpp b/src/tool1cd/PackDirectory.cpp
index 4025fce..2d2b81b 100644
--- a/src/tool1cd/PackDirectory.cpp
+++ b/src/tool1cd/PackDirectory.cpp
@@ -75,6 +75,10 @@ TStream* PackDirectory::get_data(const std::string &datahash, bool &found)
 {
 	found = false;
 
+	if (datahash.size() < 2 * DATAHASH_FIELD_LENGTH) {
+		return nullptr; // пустой (NULL) или обрезанный хэш
+	}
+
 	char binary_hash[DATAHASH_FIELD_LENGTH];
 	binary_datahash(datahash, binary_hash);
 
-- 
2.43.0


From d9f0b50aacd63125ddc02a506cfe7b16fc5b7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 50/76] fix: a seek in a container stream stays inside the
 stream

---
 src/tool1cd/cfapi/TV8FileStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 3be2d65..be0b15e 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -90,7 +90,10 @@ int64_t TV8FileStream::Seek(const int64_t Offset, const TSeekOrigin Origin)
 			}
 			break;
 		case soFromCurrent:
-			if(pos + Offset < len) {
+			if(pos + Offset < 0) {
+				pos = 0;
+			}
+			else if(pos + Offset < len) {
 				pos += Offset;
 			}
 			else {
@@ -98,7 +101,7 @@ int64_t TV8FileStream::Seek(const int64_t Offset, const TSeekOrigin Origin)
 			}
 			break;
 		case soFromEnd:
-			if(Offset <= 0) {
+			if(Offset >= 0) {
 				if(Offset <= len) {
 					pos = len - Offset;
 				}
-- 
2.43.0


From 3d15e86eb6c76a6eccce7784c670af0f5de6d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 51/76] fix: each run keeps its temporary files in a directory
 of its own

---
 src/tool1cd/TempStream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..8244411 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -33,11 +33,10 @@ TTempStreamStaticInit TempStreamStaticInit;
 
 static void DelayedInitTempPath()
 {
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	boost::filesystem::create_directory(TTempStream::tempcat);
+	// каталог свой у каждого запуска: чужие временные файлы не удаляются
+	boost::filesystem::path path = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%");
+	boost::filesystem::create_directory(path);
+	TTempStream::tempcat = path;
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From c5db2eaa8383f5e8951140b39aa4deb3e2bb1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 52/76] fix: a page read from the file does not leak

---
 src/tool1cd/MemBlock.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/MemBlock.cpp b/src/tool1cd/MemBlock.cpp
index d04ffc7..ceffac1 100644
--- a/src/tool1cd/MemBlock.cpp
+++ b/src/tool1cd/MemBlock.cpp
@@ -37,7 +37,8 @@ static void read_page(std::shared_ptr<TFileStream> &fs, char *buf, uint32_t page
 std::shared_ptr<MemBlock> MemBlock::create(std::shared_ptr<TFileStream> &fs, uint32_t page_size, uint32_t block_num,
 bool for_write, bool read)
 {
-	auto buf = new char[page_size];
+	std::vector<char> page(page_size);
+	char *buf = page.data();
 	if(for_write)
 	{
 		uint32_t fnumblocks = fs->GetSize() / page_size;
-- 
2.43.0


From cb8bcb058d4350e95ebf04784ce296a8c9704e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 53/76] fix: a number too large for an integer gives the
 default, too

---
 src/tool1cd/SystemClasses/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..9ca704e 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -187,6 +187,8 @@ int ToIntDef(const std::string &s, int default_value)
 		return stoi(s);
 	} catch (const invalid_argument &) {
 		return default_value;
+	} catch (const out_of_range &) {
+		return default_value;
 	}
 }
 
-- 
2.43.0


From 45d03341009e5e82bf2fd13c0ad6ad6a9838be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 54/76] fix: a version that is not a number is refused instead
 of taken for the last one

---
 src/ctool1cd/App.cpp | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 48d6403..ccd40f5 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -46,6 +46,25 @@ const string DATABASE_CONFIG_DEFAULT_NAME() {
 	return string("dbcf") + CF_STR;
 }
 
+// Номер версии из командной строки. Текст, который не является целым числом, номером последней версии не считается
+static bool get_version_number(const string &str, int32_t &version_number)
+{
+	version_number = 0;
+	if (str.empty()) {
+		return true;
+	}
+	try {
+		size_t count = 0;
+		version_number = stoi(str, &count);
+		if (count == str.size()) {
+			return true;
+		}
+	} catch (const std::logic_error &) {
+	}
+	msreg_g.AddError("Номер версии конфигурации не является целым числом.").with("Версия", str);
+	return false;
+}
+
 static int object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
@@ -412,12 +431,8 @@ void App::save_depot_config(const ParsedCommand &pc)
 		return;
 	}
 	int version_number;
-	string version_number_param = pc.param1;
-
-	if (Equal(version_number_param, "0")) {
-		version_number = 0;
-	} else {
-		version_number = ToIntDef(version_number_param, 0);
+	if (!get_version_number(pc.param1, version_number)) {
+		return;
 	}
 
 	version_number = base1CD->get_ver_depot_config(version_number);
@@ -461,14 +476,20 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 
 	auto splitter = version_number_param.find(':');
 	if (splitter != string::npos) {
-		end_version = ToIntDef(version_number_param
+		if (!get_version_number(version_number_param
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
-				, 0);
-		begin_version = ToIntDef(version_number_param
+				, end_version)) {
+			return;
+		}
+		if (!get_version_number(version_number_param
 				.substr(0, splitter)
-				, 0);
+				, begin_version)) {
+			return;
+		}
 	} else {
-		begin_version = ToIntDef(version_number_param, 0);
+		if (!get_version_number(version_number_param, begin_version)) {
+			return;
+		}
 		end_version = begin_version;
 	}
 
-- 
2.43.0


From 61a5a7a9296b8d793403571dfe9b67c080b66754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 55/76] fix: a binary value is shown without zero bytes behind
 it

---
 src/tool1cd/FieldType.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..ec86e73 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,16 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	m = std::max(0, std::min(m, length));
+	result.resize(m * 2);
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +78,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From ad1476f8300b7d7d55de6ad7bccc9eda24fa6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 56/76] fix: a string with a broken length is not read beyond
 its field

---
 src/tool1cd/FieldType.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index ec86e73..0754ec4 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -682,8 +682,9 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 			int16_t length = *(int16_t *) fr;
 			fr += sizeof(length);
 			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
+			auto max_size = get_size() - sizeof(length);
+			if (full_size > max_size) {
+				full_size = max_size;
 			}
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
-- 
2.43.0


From 5b6d980cb760d3b9069b25025a4e1e6bfffde044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 57/76] fix: the hidden version field has its place in the
 record

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 93d4871..b64c8f4 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields++;
 	}
 
 	t = t->get_next();
-- 
2.43.0


From e589e301cb76778aad6901322807db296a9fcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 58/76] fix: a damaged index no longer writes past the record
 list or is read forever

---
 src/tool1cd/Index.cpp | 57 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 68d70f3..22a058e 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -79,13 +79,19 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 {
 	if(!start) return 0;
 	if(!recordsindex_complete) create_recordsindex();
+	if(num_record >= recordsindex.size())
+	{
+		throw DetailedException("Попытка получения записи индекса по номеру, превышающему количество записей")
+			.add_detail("Таблица", tbase->get_name())
+			.add_detail("Индекс", name)
+			.add_detail("Номер записи", num_record);
+	}
 	return recordsindex[num_record];
 }
 
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
-	char* buf;
 	int32_t curlen;
 	uint64_t curblock;
 	uint32_t mask;
@@ -95,7 +101,8 @@ void Index::create_recordsindex() const
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	vector<char> page(pagesize);
+	char* buf = page.data();
 
 	file_index = tbase->get_file_index();
 	file_index->get_data(buf, start, 8);
@@ -106,14 +113,32 @@ void Index::create_recordsindex() const
 
 	curblock = rootblock;
 
+	// Каждая страница файла индексов может встретиться при чтении только один раз
+	uint64_t pages_left = file_index->get_len() / pagesize;
+	uint32_t numrecords = tbase->get_file_data()->get_len() / tbase->get_recordlen();
+	auto damaged = [this](const char *reason) {
+		return DetailedException("Ошибка чтения индекса таблицы. Индекс поврежден")
+			.add_detail("Таблица", tbase->get_name())
+			.add_detail("Индекс", name)
+			.add_detail("Причина", reason);
+	};
+
+	recordsindex.clear();
 	file_index->get_data(buf, curblock, pagesize);
 	curlen = *(int16_t*)(buf + 2);
 	if(curlen)
 	{
-		recordsindex.resize(tbase->get_file_data()->get_len() / tbase->get_recordlen());
 		bool is_leaf = buf[0] & 0x2;
 		while(!is_leaf)
 		{
+			if((uint64_t)length + 20 > pagesize)
+			{
+				throw damaged("Длина записи индекса больше страницы");
+			}
+			if(!pages_left--)
+			{
+				throw damaged("Зацикливание страниц");
+			}
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
@@ -122,31 +147,45 @@ void Index::create_recordsindex() const
 			is_leaf = buf[0] & 0x2;
 		}
 
-		unsigned curindex = 0;
 		while(true)
 		{
+			if(!pages_left--)
+			{
+				throw damaged("Зацикливание страниц");
+			}
 			curlen = *(int16_t*)(buf + 2);
 			curblock = *(uint32_t*)(buf + 8);
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
+			if(curlen < 0 || rlen < 0 || (uint32_t)(34 + curlen * rlen) > pagesize + rlen)
+			{
+				throw damaged("Записи не помещаются на странице");
+			}
 			char *rbuf = buf + 30;
 			for (int32_t i = 0; i < curlen; i++)
 			{
-				recordsindex[curindex++] = *(uint32_t*)rbuf & mask;
+				uint32_t numrec = *(uint32_t*)rbuf & mask;
+				if(numrec >= numrecords)
+				{
+					throw damaged("Номер записи за пределами таблицы");
+				}
+				if(recordsindex.size() >= numrecords)
+				{
+					throw damaged("Записей в индексе больше, чем в таблице");
+				}
+				recordsindex.push_back(numrec);
 				rbuf += rlen;
-				if(curindex % 10000 == 0) {
-					msreg_g.Status(string("Чтение индекса ") + to_string(curindex));
+				if(recordsindex.size() % 10000 == 0) {
+					msreg_g.Status(string("Чтение индекса ") + to_string(recordsindex.size()));
 				}
 			}
 			if(curblock == LAST_PAGE) break; // FIXME: разобраться LAST_PAGE == UINT_MAX, а тут uint64_t curblock
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
 			file_index->get_data(buf, curblock, pagesize);
 		}
-		recordsindex.resize(curindex);
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
-- 
2.43.0


From 3b1faae451c7962e7e7984d5fdc1c250a74c512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 59/76] fix: -eax exports the records of tables without a
 primary index

---
 src/ctool1cd/App.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index ccd40f5..32311d7 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -100,9 +100,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 	for (int j = 0; j < base1CD->get_numtables(); j++) {
 		tbl = base1CD->get_table(j);
 
-		if (!tbl->get_num_indexes()) {
-			tbl->fill_records_index();
-		}
+		tbl->fill_records_index();
 
 		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
 
-- 
2.43.0


From 928e95395fec918224e3eaccffebf976cf06e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 60/76] fix: a text of a TEXT field is taken with its length,
 an empty one is no null pointer

---
 src/tool1cd/FieldType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 0754ec4..052f3fe 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -749,7 +749,7 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			string s = toXML(string(static_cast<char*>(out->GetMemory()), out->GetSize()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From f3ffb630b1ef3146ac6c2032fbb98f6d16844baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 61/76] fix: names taken from the data do not lead out of the
 output directory

---
 src/ctool1cd/App.cpp                   |  6 +++---
 src/tool1cd/Common.cpp                 | 14 ++++++++++++++
 src/tool1cd/Common.h                   |  1 +
 src/tool1cd/Table.cpp                  |  7 +++----
 src/tool1cd/cfapi/V8Catalog.cpp        |  4 ++--
 src/tool1cd/save_part_depot_config.cpp |  6 +++---
 6 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 32311d7..5997737 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -102,7 +102,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 
 		tbl->fill_records_index();
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / safe_file_name(tbl->get_name() + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -168,7 +168,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / safe_file_name(tbl->get_name() + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
@@ -377,7 +377,7 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 
 	for (auto& supplier_config : base1CD->supplier_configs()) {
 		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
-		boost::filesystem::path cfpath = param_path / file_name;
+		boost::filesystem::path cfpath = param_path / safe_file_name(file_name);
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
 					.with("Файл", cfpath.string());
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index a14feab..262855e 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -22,6 +22,7 @@
 #include "Common.h"
 #include "MessageRegistration.h"
 #include "BinaryDecimalNumber.h"
+#include <algorithm>
 //---------------------------------------------------------------------------
 #if !defined(_WIN32)
 #pragma package(smart_init)
@@ -169,6 +170,19 @@ unsigned char from_hex_digit(char digit)
 	return 0;
 }
 
+//---------------------------------------------------------------------------
+// имя файла, взятое из данных: не должно выводить путь за пределы каталога
+std::string safe_file_name(const std::string &name)
+{
+	std::string result(name);
+	std::replace(result.begin(), result.end(), '/', '_');
+	std::replace(result.begin(), result.end(), '\\', '_');
+	if (result == "." || result == "..") {
+		result += "_";
+	}
+	return result;
+}
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory) {
 	if(!boost::filesystem::exists(check_path)) {
 		if(create_directory) {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..648f471 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -39,6 +39,7 @@ std::string hexstring(const char *buf, int n);
 std::string hexstring(TStream *str);
 std::string toXML(const std::string &in);
 unsigned char from_hex_digit(char digit);
+std::string safe_file_name(const std::string &name);
 
 //---------------------------------------------------------------------------
 // Структура адреса файла таблицы-контейнера файлов
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index b64c8f4..a4f525f 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1025,8 +1025,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 					}
 
 					// значения полей записи не должны выводить путь за пределы каталога
-					std::replace(outputvalue.begin(), outputvalue.end(), '/', '_');
-					std::replace(outputvalue.begin(), outputvalue.end(), '\\', '_');
+					outputvalue = safe_file_name(outputvalue);
 					if(!field->save_blob_to_file(rec.get(), (dir / outputvalue).string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
@@ -1121,7 +1120,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 void Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return;
 	}
@@ -1182,7 +1181,7 @@ void Table::export_table(const boost::filesystem::path &path) const
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return;
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index bff4a26..af6bda6 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -813,10 +813,10 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 	while(f)
 	{
 		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+			f->get_catalog()->SaveToDir(dir / safe_file_name(f->get_file_name()));
 		}
 		else {
-			f->save_to_file(dir / f->get_file_name());
+			f->save_to_file(dir / safe_file_name(f->get_file_name()));
 		}
 		f->close();
 		f = f->get_next();
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index f9ddd38..ab34365 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -349,7 +349,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 														.add_detail("Объект", sObjId)
 														.add_detail("Версия", lastver);
 								}
-								TFileStream f(cath / sObjId, fmCreate);
+								TFileStream f(cath / safe_file_name(sObjId), fmCreate);
 								sobj->Seek(0, soFromBeginning);
 								ZInflateStream(sobj, &f);
 								if(deletesobj) delete sobj;
@@ -446,10 +446,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											if(iscatalog) cat->SaveToDir((cath / safe_file_name(ext_name)).string());
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(cath / safe_file_name(ext_name), fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From 7358946c7ed341e8f14b16c81358f2c58d20efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 62/76] fix: sizes of tables of 2 GiB and more are reported

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 5997737..d8f28a5 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -65,7 +65,7 @@ static bool get_version_number(const string &str, int32_t &version_number)
 	return false;
 }
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
-- 
2.43.0


From fb66833772a50f941576df2b3e1be4360999c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 63/76] fix: free records behind 4 GiB are found when a record
 is inserted

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index a4f525f..d575cea 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2097,7 +2097,7 @@ void Table::insert_record(const TableRecord *nrec)
 		file_data->get_data(&phys_numrecord, 1, 4);
 		if(phys_numrecord)
 		{
-			file_data->get_data(&k, phys_numrecord * recordlen + 1, 4);
+			file_data->get_data(&k, (uint64_t)phys_numrecord * recordlen + 1, 4);
 			file_data->set_data(&k, 1, 4);
 		}
 		else phys_numrecord = file_data->get_len() / recordlen;
-- 
2.43.0


From cfc7e9a3e5a120b8db8902f29497f2015392c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 64/76] fix: return the position of an index's root page in 64
 bits

---
 src/tool1cd/Index.cpp | 2 +-
 src/tool1cd/Index.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 22a058e..246c142 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -346,7 +346,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 }
 
 //---------------------------------------------------------------------------
-uint32_t Index::get_rootblock() const
+uint64_t Index::get_rootblock() const
 {
 	if(!start) return 0;
 
diff --git a/src/tool1cd/Index.h b/src/tool1cd/Index.h
index 87f244e..a972dba 100644
--- a/src/tool1cd/Index.h
+++ b/src/tool1cd/Index.h
@@ -108,7 +108,7 @@ public:
 	void dump(const std::string &filename);
 	void calcRecordIndex(const TableRecord *rec, char *indexBuf); // вычислить индекс записи rec и поместить в indexBuf. Длина буфера indexBuf должна быть не меньше length
 
-	uint32_t get_rootblock() const;
+	uint64_t get_rootblock() const;
 	uint32_t get_length() const;
 
 	uint64_t get_start_offset() const;
-- 
2.43.0


From 063f7b6e24be18f2ee5734b384cc9365c84c322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 65/76] fix: positions of neighbouring index pages are computed
 in 64 bits

---
 src/tool1cd/Index.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 246c142..328090a 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -726,11 +726,11 @@ void Index::delete_index_record(const char* index_buf, const uint32_t phys_numre
 					page_is_empty = true;
 					if(lph->prev_page != LAST_PAGE)
 					{
-						tbase->get_file_index()->set_data(&(lph->next_page), (version < db_ver::ver8_3_8_0 ? lph->prev_page : lph->prev_page * pagesize) + 8, 4);
+						tbase->get_file_index()->set_data(&(lph->next_page), (version < db_ver::ver8_3_8_0 ? lph->prev_page : (uint64_t)lph->prev_page * pagesize) + 8, 4);
 					}
 					if(lph->next_page != LAST_PAGE)
 					{
-						tbase->get_file_index()->set_data(&(lph->prev_page), (version < db_ver::ver8_3_8_0 ? lph->next_page : lph->next_page * pagesize) + 4, 4);
+						tbase->get_file_index()->set_data(&(lph->prev_page), (version < db_ver::ver8_3_8_0 ? lph->next_page : (uint64_t)lph->next_page * pagesize) + 4, 4);
 					}
 					// TODO проверить, надо ли номера свободных страниц преобразовывать в смещения для версий от 8.0 до 8.2.14
 					tbase->get_file_index()->get_data(&k, 0, 4);
@@ -792,11 +792,11 @@ void Index::delete_index_record(const char* index_buf, const uint32_t phys_numre
 					page_is_empty = true;
 					if(bph->prev_page != LAST_PAGE)
 					{
-						tbase->get_file_index()->set_data(&(bph->next_page), (version < db_ver::ver8_3_8_0 ? bph->prev_page : bph->prev_page * pagesize) + 8, 4);
+						tbase->get_file_index()->set_data(&(bph->next_page), (version < db_ver::ver8_3_8_0 ? bph->prev_page : (uint64_t)bph->prev_page * pagesize) + 8, 4);
 					}
 					if(bph->next_page != LAST_PAGE)
 					{
-						tbase->get_file_index()->set_data(&(bph->prev_page), (version < db_ver::ver8_3_8_0 ? bph->next_page : bph->next_page * pagesize) + 4, 4);
+						tbase->get_file_index()->set_data(&(bph->prev_page), (version < db_ver::ver8_3_8_0 ? bph->next_page : (uint64_t)bph->next_page * pagesize) + 4, 4);
 					}
 					tbase->get_file_index()->get_data(&k, 0, 4);
 					memset(page, 0, pagesize);
-- 
2.43.0


From 622296f45dab30aec0a353c72761cc57c35824f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:04 +0000
Subject: [PATCH 66/76] fix: refuse a list of tables that does not fit into the
 root object

---
 src/tool1cd/Class_1CD.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 75dc20b..ddf52a6 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -237,6 +237,21 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// количество таблиц в списке таблиц; список должен целиком помещаться в корневом объекте
+template<typename root_type>
+static int32_t get_tables_count(const root_type* root, uint64_t root_size)
+{
+	const uint64_t header_size = offsetof(root_type, blocks);
+	if(root_size < header_size || root->numblocks < 0
+			|| (uint64_t)root->numblocks > (root_size - header_size) / sizeof(uint32_t))
+	{
+		throw DetailedException("Список таблиц выходит за пределы корневого объекта")
+				.add_detail("Длина корневого объекта", root_size);
+	}
+	return root->numblocks;
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
@@ -348,6 +363,7 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
 		root80 = (root_80*)root_object->get_data();
+		num_tables = get_tables_count(root80, root_object->get_len());
 
 		locale = new char[strlen(root80->lang) + 1];
 
@@ -357,7 +373,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		strcpy(locale, root80->lang);
 #endif
 
-		num_tables = root80->numblocks;
 		table_blocks = &(root80->blocks[0]);
 	}
 	else
@@ -369,10 +384,12 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 			b = new char[tstr->GetSize()];
 			memcpy(b, tstr->GetMemory(), tstr->GetSize());
 			root81 = (root_81*)b;
+			num_tables = get_tables_count(root81, tstr->GetSize());
 		}
 		else
 		{
 			root81 = (root_81*)root_object->get_data();
+			num_tables = get_tables_count(root81, root_object->get_len());
 		}
 
 		locale = new char[strlen(root81->lang) + 1];
@@ -382,7 +399,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		strcpy(locale, root81->lang);
 #endif
 
-		num_tables = root81->numblocks;
 		table_blocks = &(root81->blocks[0]);
 
 	}
-- 
2.43.0


From 10194b72163418495eabb85e1859e6621e7d0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 67/76] fix: refuse a list in configinfo or DynamicallyUpdated
 that ends too early

---
 src/tool1cd/ConfigStorage.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 0a7fe95..f456298 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -1085,15 +1085,15 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 		string name = ct->get_value();
 
 		ct = ct->get_next();
-		if (files.find(LowerCase(name)) != files.end()) {
-			continue;
-		}
-
 		if(!ct)
 		{
 			throw DetailedException("Ошибка разбора файла configinfo")
 				.add_detail("Путь", config_info_path);
 		}
+		if (files.find(LowerCase(name)) != files.end()) {
+			continue;
+		}
+
 		if(ct->get_type() != node_type::nd_binary2)
 		{
 			throw DetailedException("Ошибка разбора файла configinfo")
@@ -1160,6 +1160,9 @@ std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
 		dynup.reserve(ndynup);
 		while (ndynup--) {
 			ct = ct->get_next();
+			if (!ct) {
+				throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
+			}
 			dynup.emplace_back(BinaryGuid(ct->get_value()));
 		}
 	}
-- 
2.43.0


From 11a0a292643a8a3f02256de68ed3c3a107fa7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 68/76] fix: do not write into a file of a container that is no
 catalog

---
 src/tool1cd/ConfigStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index f456298..bd719a9 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -165,6 +165,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
 		c = c->CreateCatalog(fname.substr(0, i));
+		if(!c) return false;
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
-- 
2.43.0


From e1824487b987eeda8b7dbf51f752cfd968a8f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 69/76] fix: create the missing file of a table instead of
 using a null pointer

---
 src/tool1cd/Table.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d575cea..2e32a47 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1640,7 +1640,7 @@ uint32_t Table::get_phys_numrec(int32_t ARow, Index* cur_index)
 //---------------------------------------------------------------------------
 void Table::create_file_data()
 {
-	if(!file_data) return;
+	if(file_data) return;
 	file_data = new V8Object(base);
 	refresh_descr_table();
 }
@@ -1648,7 +1648,7 @@ void Table::create_file_data()
 //---------------------------------------------------------------------------
 void Table::create_file_blob()
 {
-	if(!file_blob) return;
+	if(file_blob) return;
 	file_blob = new V8Object(base);
 	refresh_descr_table();
 }
@@ -1656,7 +1656,7 @@ void Table::create_file_blob()
 //---------------------------------------------------------------------------
 void Table::create_file_index()
 {
-	if(!file_index) return;
+	if(file_index) return;
 	file_index = new V8Object(base);
 	refresh_descr_table();
 
-- 
2.43.0


From a2f45c62c90f7c718b606227946559bb6e44cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 70/76] fix: report a missing element of a text in braces
 instead of returning a null reference

---
 src/tool1cd/Parse_tree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index b52466e..4a490d8 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -177,13 +177,15 @@ Tree* Tree::get_last()
 //---------------------------------------------------------------------------
 Tree& Tree::operator [](int _index)
 {
-	if(!this) return *this; //-V704
-
 	Tree* ret = first;
-	while(_index)
+	for(int i = 0; ret && i < _index; i++)
 	{
-		if(ret) ret = ret->next;
-		--_index;
+		ret = ret->next;
+	}
+	if(!ret || _index < 0)
+	{
+		throw DetailedException("Ошибка формата потока. Нет ожидаемого узла.")
+						.add_detail("Номер узла", _index);
 	}
 	return *ret;
 }
-- 
2.43.0


From b75c70d957d1cb1f66897124669c11dbdb1e91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 71/76] fix: destroying a container file walked a set its
 streams erase themselves from

---
 src/tool1cd/cfapi/V8File.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..1575d20 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -583,14 +583,14 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 // деструктор
 V8File::~V8File()
 {
-	std::set<TV8FileStream*>::iterator istreams;
-
 	Lock->Acquire();
 	_destructed = true;
-	for(istreams = _streams.begin(); istreams != _streams.end(); ++istreams) {
-		delete *istreams;
+	while(!_streams.empty()) {
+		// поток удаляет себя из множества в своем деструкторе
+		TV8FileStream *stream = *_streams.begin();
+		_streams.erase(stream);
+		delete stream;
 	}
-	_streams.clear();
 
 	close();
 
-- 
2.43.0


From 565e39ed6de93a599e10cec53976373ebb0ccb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 72/76] fix: data that got its first place in a container was
 missing from its directory

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index af6bda6..5fc43bc 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -605,6 +605,9 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 		len = block->GetSize();
 		block->Seek(0, soFromBeginning);
 	}
+	if(start == 0 || start == LAST_BLOCK) {
+		_fatmodified = true; // у данных появляется новое место, оглавление надо записать
+	}
 	start = get_nextblock(start);
 
 	do
-- 
2.43.0


From 8453f4027fe46b2f09a9ab6f64e01684bb99228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 73/76] fix: a container block without room made the whole data
 be written over its neighbours

---
 src/tool1cd/cfapi/V8Catalog.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 5fc43bc..3aff3cd 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -64,14 +64,21 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	if(readlen <= 0) {
+	if(readlen < 0) {
 		return stream_to;
 	}
-	stream_to->CopyFrom(stream_from, readlen);
+	if(readlen > 0) {
+		stream_to->CopyFrom(stream_from, readlen);
+	}
 
 	int32_t pos = readlen;
+	int64_t passed = 0;
 
 	while(start != LAST_BLOCK && pos < len) {
+		passed += stBlockHeader::size();
+		if(passed > stream_from->GetSize()) {
+			break;
+		}
 		stream_from->Seek(start, soFromBeginning);
 		stream_from->Read(&block_header, block_header.size());
 
@@ -80,10 +87,12 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		if(readlen <= 0) {
+		if(readlen < 0) {
 			break;
 		}
-		stream_to->CopyFrom(stream_from, readlen);
+		if(readlen > 0) {
+			stream_to->CopyFrom(stream_from, readlen);
+		}
 		pos += readlen;
 	}
 
@@ -656,7 +665,9 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		if(curlen > 0) {
+			data->CopyFrom(block, curlen);
+		}
 		if(addwrite) {
 			_t = new char [blocklen - len];
 			memset(_t, 0, blocklen - len);
-- 
2.43.0


From 9cc95e41b8aeef9fba3aab08a194b24d4a0a663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 74/76] fix: a date is read from its seven bytes only

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..81d20e2 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = has_sign_flag ? 1 : 2;
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -210,7 +210,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 1043e7a7031f924a493fa640c95f867d58da7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:21 +0000
Subject: [PATCH 75/76] fix: the year of an exported date has four digits

---
 src/tool1cd/FieldType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 052f3fe..dbefe3c 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -569,7 +569,7 @@ string DatetimeFieldType::get_XML_presentation(const char *rec, const Table *par
 {
 	BinaryDecimalDate bdd(rec);
 	string result;
-	result.append(to_string(bdd.get_year()));
+	result.append(bdd.get_part(0, 4));
 	result.append("-");
 	result.append(s02(to_string(bdd.get_month())));
 	result.append("-");
-- 
2.43.0


From f2ae9b20aedaee60255844c79cb654eddfb3fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 76/76] fix: an empty list is written as a list

---
 src/tool1cd/Parse_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 4a490d8..3e482ba 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -196,7 +196,7 @@ void Tree::outtext(std::string &text)
 	node_type lt = node_type::nd_unknown;
 	TReplaceFlags _ReplaceAll = TReplaceFlags::rfReplaceAll;
 
-	if(num_subnode)
+	if(num_subnode || type == node_type::nd_list)
 	{
 		if (!text.empty()) {
 			text += "\r\n";
-- 
2.43.0

