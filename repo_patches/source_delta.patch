From eb2c8dcefc0dafa82118622883f908f5bb3e4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 01/38] fix: reject malformed Base64 text instead of reading
 outside of it

---
 include/wisardpkg.hpp | 27 ++++++++++++++++++++-------
 src/common/utils.cc   | 27 ++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..1590b9b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17440,22 +17440,35 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The data is not a valid Base64 text!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      const bool isLast = i+4 == sizeIn; // only the last block can be padded
+      dataOut[k++] = (getIndex(dataIn[i]) << 2 & 0xfc) | (getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(isLast && dataIn[i+2]=='=' && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+1]) << 4 & 0xf0) | (getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(isLast && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+2]) << 6 & 0xc0) | (getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
 
 private:
   static const std::string charsMap;
-  static std::unordered_map<char,char> indexMap;
+  static const std::unordered_map<char,char> indexMap;
+
+  static char getIndex(const char character){
+    std::unordered_map<char,char>::const_iterator it = Base64::indexMap.find(character);
+    if(it == Base64::indexMap.end()){
+      throw Exception("The data is not a valid Base64 text!");
+    }
+    return it->second;
+  }
 
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
@@ -17471,7 +17484,7 @@ const std::string Base64::charsMap =
   "abcdefghijklmnopqrstuvwxyz"
   "0123456789+/";
 
-std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
+const std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
 
 class Bleaching{
 public:
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..0e9929f 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -110,22 +110,35 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The data is not a valid Base64 text!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      const bool isLast = i+4 == sizeIn; // only the last block can be padded
+      dataOut[k++] = (getIndex(dataIn[i]) << 2 & 0xfc) | (getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(isLast && dataIn[i+2]=='=' && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+1]) << 4 & 0xf0) | (getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(isLast && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+2]) << 6 & 0xc0) | (getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
 
 private:
   static const std::string charsMap;
-  static std::unordered_map<char,char> indexMap;
+  static const std::unordered_map<char,char> indexMap;
+
+  static char getIndex(const char character){
+    std::unordered_map<char,char>::const_iterator it = Base64::indexMap.find(character);
+    if(it == Base64::indexMap.end()){
+      throw Exception("The data is not a valid Base64 text!");
+    }
+    return it->second;
+  }
 
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
@@ -141,4 +154,4 @@ const std::string Base64::charsMap =
   "abcdefghijklmnopqrstuvwxyz"
   "0123456789+/";
 
-std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
+const std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
-- 
2.43.0


From 3dac7f08002875bfb87267ebf9b9efec8dcd6ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 02/38] fix: reject packed inputs whose padding does not fit
 their data

---
 include/wisardpkg.hpp | 6 ++++++
 src/data/bininput.cc  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1590b9b..7306ece 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17647,8 +17647,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.empty()){
+      throw Exception("The data is not a valid binary input!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data is not a valid binary input!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..20ab09a 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -15,8 +15,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.empty()){
+      throw Exception("The data is not a valid binary input!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data is not a valid binary input!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From 708cc25554a763d7e23c47b48e355a18242b4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 03/38] fix: load models that were saved before any training,
 and reject data of other RAMs

---
 include/wisardpkg.hpp              | 33 ++++++++++++++++++++----------
 src/common/utils.cc                |  4 ++++
 src/data/dataset.cc                |  3 +--
 src/models/wisard/discriminator.cc | 23 ++++++++++++++-------
 src/models/wisard/ramdatahandle.cc |  3 +--
 5 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7306ece..af79c64 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17350,6 +17350,10 @@ std::string getRandomString(int len){
   return s;
 }
 
+inline bool hasSufix(const std::string& text, const std::string& sufix){
+  return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
@@ -17701,8 +17705,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -18122,8 +18125,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18644,8 +18646,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18665,17 +18666,27 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        std::string rdata="";
+        if(!data.empty()){ // without any data all the RAMs are empty
+          if(pos > data.size()){
+            throw Exception("The RAM data has less RAMs than the mapping!");
+          }
+          size_t found = std::min(data.find('.',pos), data.size());
+          rdata = data.substr(pos,found-pos);
+          pos = found+1;
+        }
         nl::json base = {
           {"addresses", *it},
-          {"data", data.substr(pos,found-pos)}
+          {"data", rdata}
         };
-        pos = found+1;
         base.merge_patch(rbase);
         rams.push_back(RAM(base));
       }
+      if(!data.empty() && pos <= data.size()){
+        throw Exception("The RAM data has more RAMs than the mapping!");
+      }
     }
   }
 
@@ -18695,7 +18706,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 0e9929f..5fba6d7 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -20,6 +20,10 @@ std::string getRandomString(int len){
   return s;
 }
 
+inline bool hasSufix(const std::string& text, const std::string& sufix){
+  return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..f37aad9 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -2,8 +2,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..a2e0b11 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -222,8 +222,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -243,17 +242,27 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        std::string rdata="";
+        if(!data.empty()){ // without any data all the RAMs are empty
+          if(pos > data.size()){
+            throw Exception("The RAM data has less RAMs than the mapping!");
+          }
+          size_t found = std::min(data.find('.',pos), data.size());
+          rdata = data.substr(pos,found-pos);
+          pos = found+1;
+        }
         nl::json base = {
           {"addresses", *it},
-          {"data", data.substr(pos,found-pos)}
+          {"data", rdata}
         };
-        pos = found+1;
         base.merge_patch(rbase);
         rams.push_back(RAM(base));
       }
+      if(!data.empty() && pos <= data.size()){
+        throw Exception("The RAM data has more RAMs than the mapping!");
+      }
     }
   }
 
@@ -273,7 +282,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..d4e2149 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
-- 
2.43.0


From fc9a9a01827ae94066ea6ae996c0fa54e945d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 04/38] fix: report RAM data files that are missing, unreadable
 or incomplete

---
 include/wisardpkg.hpp              | 59 +++++++++++++++++++-----------
 src/models/wisard/discriminator.cc | 35 +++++++++++-------
 src/models/wisard/ramdatahandle.cc | 22 +++++++----
 3 files changed, 73 insertions(+), 43 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index af79c64..a233c1a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18128,16 +18128,20 @@ private:
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
-        while(true){
-          if(dataFile.eof()) break;
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be opened!");
+      }
+      while(true){
+        if(dataFile.eof()) break;
 
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          ramdata[ramdata.size()] = dataToRam(rdata);
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data could not be read!");
         }
-        dataFile.close();
+        ramdata[ramdata.size()] = dataToRam(rdata);
       }
+      dataFile.close();
     }
     else{
       int pos=0;
@@ -18154,7 +18158,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is not valid!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
@@ -18649,21 +18655,30 @@ protected:
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
-        for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          nl::json base = {
-            {"addresses", *it},
-            {"data", rdata}
-          };
-          base.merge_patch(rbase);
-          rams.push_back(RAM(base));
-        }
-        dataFile.close();
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be opened!");
       }
+      for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+        if(dataFile.eof()){
+          throw Exception("The RAM data has less RAMs than the mapping!");
+        }
+
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data could not be read!");
+        }
+        nl::json base = {
+          {"addresses", *it},
+          {"data", rdata}
+        };
+        base.merge_patch(rbase);
+        rams.push_back(RAM(base));
+      }
+      if(!mapping.empty() && !dataFile.eof()){
+        throw Exception("The RAM data has more RAMs than the mapping!");
+      }
+      dataFile.close();
     }
     else{
       size_t pos=0;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index a2e0b11..f6b26c1 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -225,21 +225,30 @@ protected:
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
-        for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
-
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          nl::json base = {
-            {"addresses", *it},
-            {"data", rdata}
-          };
-          base.merge_patch(rbase);
-          rams.push_back(RAM(base));
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be opened!");
+      }
+      for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+        if(dataFile.eof()){
+          throw Exception("The RAM data has less RAMs than the mapping!");
         }
-        dataFile.close();
+
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data could not be read!");
+        }
+        nl::json base = {
+          {"addresses", *it},
+          {"data", rdata}
+        };
+        base.merge_patch(rbase);
+        rams.push_back(RAM(base));
       }
+      if(!mapping.empty() && !dataFile.eof()){
+        throw Exception("The RAM data has more RAMs than the mapping!");
+      }
+      dataFile.close();
     }
     else{
       size_t pos=0;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index d4e2149..3787eae 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -72,16 +72,20 @@ private:
     if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
-        while(true){
-          if(dataFile.eof()) break;
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be opened!");
+      }
+      while(true){
+        if(dataFile.eof()) break;
 
-          std::string rdata="";
-          std::getline(dataFile,rdata,'.');
-          ramdata[ramdata.size()] = dataToRam(rdata);
+        std::string rdata="";
+        std::getline(dataFile,rdata,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of RAM data could not be read!");
         }
-        dataFile.close();
+        ramdata[ramdata.size()] = dataToRam(rdata);
       }
+      dataFile.close();
     }
     else{
       int pos=0;
@@ -98,7 +102,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is not valid!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
-- 
2.43.0


From 80e2b0f93da853af497df379aad63f8ab4d104de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 05/38] fix: report data set files that are missing, unreadable
 or incomplete

---
 include/wisardpkg.hpp | 27 ++++++++++++++++++---------
 src/data/dataset.cc   | 27 ++++++++++++++++++---------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a233c1a..6b880cb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17710,19 +17710,28 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set could not be opened!");
+    }
+    while(true){
+      if(dataFile.eof()) break;
 
-        std::string input="";
-        std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
-        std::string label = Base64::decode(input.substr(0,sharp));
+      std::string input="";
+      std::getline(dataFile,input,'.');
+      if(dataFile.bad()){
+        throw Exception("The file of the data set could not be read!");
+      }
+      if(input.empty() && data.empty() && dataFile.eof()) break; // an empty data set
 
-        add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
+      size_t sharp = input.find("#");
+      if(sharp == std::string::npos){
+        throw Exception("The file of the data set is not valid!");
       }
-      dataFile.close();
+      std::string label = Base64::decode(input.substr(0,sharp));
+
+      add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
     }
+    dataFile.close();
   }
 
   void add(const BinInput& input){
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index f37aad9..263f421 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -7,19 +7,28 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set could not be opened!");
+    }
+    while(true){
+      if(dataFile.eof()) break;
 
-        std::string input="";
-        std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
-        std::string label = Base64::decode(input.substr(0,sharp));
+      std::string input="";
+      std::getline(dataFile,input,'.');
+      if(dataFile.bad()){
+        throw Exception("The file of the data set could not be read!");
+      }
+      if(input.empty() && data.empty() && dataFile.eof()) break; // an empty data set
 
-        add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
+      size_t sharp = input.find("#");
+      if(sharp == std::string::npos){
+        throw Exception("The file of the data set is not valid!");
       }
-      dataFile.close();
+      std::string label = Base64::decode(input.substr(0,sharp));
+
+      add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
     }
+    dataFile.close();
   }
 
   void add(const BinInput& input){
-- 
2.43.0


From e7d3d6c940476a9a2154d17e95b486f7651ce7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 06/38] fix: save RAM data in a file of its own and report when
 that fails

---
 include/wisardpkg.hpp              | 39 ++++++++++++++++++++++++------
 src/base.h                         |  2 ++
 src/common/utils.cc                | 14 +++++++++++
 src/models/wisard/discriminator.cc | 23 ++++++++++++------
 4 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6b880cb..40e4e6f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -16,6 +16,8 @@ https://github.com/IAZero/wisardpkg
 #include <map>
 #include <tuple>
 #include <cstdlib>
+#include <cstdio>
+#include <cerrno>
 #include <unordered_map>
 #include <algorithm>    // std::random_shuffle
 #include <time.h>
@@ -17350,6 +17352,20 @@ std::string getRandomString(int len){
   return s;
 }
 
+// Creates a file that did not exist before and returns its name.
+inline std::string createFile(const std::string& prefix, const std::string& sufix){
+  for(int i=0; i<10000; i++){
+    std::string filename = prefix + getRandomString(10) + (i != 0 ? std::to_string(i) : "") + sufix;
+    std::FILE* file = std::fopen(filename.c_str(), "wx");
+    if(file != NULL){
+      std::fclose(file);
+      return filename;
+    }
+    if(errno != EEXIST) break;
+  }
+  throw Exception("The file could not be created!");
+}
+
 inline bool hasSufix(const std::string& text, const std::string& sufix){
   return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
@@ -18717,15 +18733,24 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
-      std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      std::string filename = createFile(prefix, ramdata_sufix);
+      try{
+        std::ofstream dataFile;
+        dataFile.open(filename);
 
-      for(unsigned int i=0; i<rams.size(); i++){
-        dataFile << (i != 0 ? "." : "") + rams[i].getData();
-      }
+        for(unsigned int i=0; i<rams.size(); i++){
+          dataFile << (i != 0 ? "." : "") + rams[i].getData();
+        }
 
-      dataFile.close();
+        dataFile.close();
+        if(dataFile.fail()){
+          throw Exception("The RAM data could not be saved!");
+        }
+      }
+      catch(...){
+        std::remove(filename.c_str());
+        throw;
+      }
       data = filename;
     }
     else{
diff --git a/src/base.h b/src/base.h
index 8281a23..37d52bf 100644
--- a/src/base.h
+++ b/src/base.h
@@ -5,6 +5,8 @@
 #include <map>
 #include <tuple>
 #include <cstdlib>
+#include <cstdio>
+#include <cerrno>
 #include <unordered_map>
 #include <algorithm>    // std::random_shuffle
 #include <time.h>
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 5fba6d7..6ee1a11 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -20,6 +20,20 @@ std::string getRandomString(int len){
   return s;
 }
 
+// Creates a file that did not exist before and returns its name.
+inline std::string createFile(const std::string& prefix, const std::string& sufix){
+  for(int i=0; i<10000; i++){
+    std::string filename = prefix + getRandomString(10) + (i != 0 ? std::to_string(i) : "") + sufix;
+    std::FILE* file = std::fopen(filename.c_str(), "wx");
+    if(file != NULL){
+      std::fclose(file);
+      return filename;
+    }
+    if(errno != EEXIST) break;
+  }
+  throw Exception("The file could not be created!");
+}
+
 inline bool hasSufix(const std::string& text, const std::string& sufix){
   return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index f6b26c1..fc5cec0 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -278,15 +278,24 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
-      std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      std::string filename = createFile(prefix, ramdata_sufix);
+      try{
+        std::ofstream dataFile;
+        dataFile.open(filename);
 
-      for(unsigned int i=0; i<rams.size(); i++){
-        dataFile << (i != 0 ? "." : "") + rams[i].getData();
-      }
+        for(unsigned int i=0; i<rams.size(); i++){
+          dataFile << (i != 0 ? "." : "") + rams[i].getData();
+        }
 
-      dataFile.close();
+        dataFile.close();
+        if(dataFile.fail()){
+          throw Exception("The RAM data could not be saved!");
+        }
+      }
+      catch(...){
+        std::remove(filename.c_str());
+        throw;
+      }
       data = filename;
     }
     else{
-- 
2.43.0


From 9a0b552463b05975f908840e93e676b2779cf6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 07/38] fix: replace the file of a data set as a whole and
 report when that fails

---
 include/wisardpkg.hpp | 21 +++++++++++++++++----
 src/common/utils.cc   | 13 +++++++++++++
 src/data/dataset.cc   |  8 ++++----
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 40e4e6f..d2502a3 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17366,6 +17366,19 @@ inline std::string createFile(const std::string& prefix, const std::string& sufi
   throw Exception("The file could not be created!");
 }
 
+// Replaces the content of a file as a whole: until it is complete the old content stays.
+inline void replaceFile(const std::string& filename, const std::string& content){
+  std::string temporary = createFile(filename+".", ".tmp");
+  std::ofstream file;
+  file.open(temporary);
+  file << content;
+  file.close();
+  if(file.fail() || std::rename(temporary.c_str(), filename.c_str()) != 0){
+    std::remove(temporary.c_str());
+    throw Exception("The file could not be saved!");
+  }
+}
+
 inline bool hasSufix(const std::string& text, const std::string& sufix){
   return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
@@ -17785,14 +17798,14 @@ public:
 
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
-    std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    std::string content;
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      std::unordered_map<int,std::string>::const_iterator label = labels.find(i);
+      content += (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
-    dataFile.close();
+    replaceFile(filename, content);
   }
 
 private:
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 6ee1a11..398a249 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -34,6 +34,19 @@ inline std::string createFile(const std::string& prefix, const std::string& sufi
   throw Exception("The file could not be created!");
 }
 
+// Replaces the content of a file as a whole: until it is complete the old content stays.
+inline void replaceFile(const std::string& filename, const std::string& content){
+  std::string temporary = createFile(filename+".", ".tmp");
+  std::ofstream file;
+  file.open(temporary);
+  file << content;
+  file.close();
+  if(file.fail() || std::rename(temporary.c_str(), filename.c_str()) != 0){
+    std::remove(temporary.c_str());
+    throw Exception("The file could not be saved!");
+  }
+}
+
 inline bool hasSufix(const std::string& text, const std::string& sufix){
   return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
 }
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 263f421..4955031 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -66,14 +66,14 @@ public:
 
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
-    std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    std::string content;
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      std::unordered_map<int,std::string>::const_iterator label = labels.find(i);
+      content += (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
-    dataFile.close();
+    replaceFile(filename, content);
   }
 
 private:
-- 
2.43.0


From dffa621c4431547fab70143891c63b2439a5595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 08/38] fix: replace the file of a RAM data handle as a whole
 and report when that fails

---
 include/wisardpkg.hpp              | 9 +--------
 src/models/wisard/ramdatahandle.cc | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d2502a3..c3ffbef 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18149,14 +18149,7 @@ public:
 
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
-    std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
-
-    for(unsigned int i=0; i<ramdata.size(); i++){
-      dataFile << (i != 0 ? "." : "") + data(i);
-    }
-
-    dataFile.close();
+    replaceFile(filename, data());
   }
 
 private:
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 3787eae..b5b7093 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -55,14 +55,7 @@ public:
 
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
-    std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
-
-    for(unsigned int i=0; i<ramdata.size(); i++){
-      dataFile << (i != 0 ? "." : "") + data(i);
-    }
-
-    dataFile.close();
+    replaceFile(filename, data());
   }
 
 private:
-- 
2.43.0


From ac49e102492923ce4a0e7d608785867db0cb4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 09/38] fix: reading RAM data no longer adds RAMs and cells to
 it

---
 include/wisardpkg.hpp              | 13 +++++++++----
 src/models/wisard/ramdatahandle.cc | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c3ffbef..97cd30d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18102,11 +18102,15 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    ram_t::const_iterator it = ram->second.find(addr);
+    return it == ram->second.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
   void set(int r, int addr, int value){
@@ -18137,9 +18141,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index b5b7093..78c56ec 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -8,11 +8,15 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    ram_t::const_iterator it = ram->second.find(addr);
+    return it == ram->second.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
   void set(int r, int addr, int value){
@@ -43,9 +47,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
-- 
2.43.0


From c4aa02b9c86cc41aaabaa8740ce71b9c1f9d4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 10/38] fix: reject edits of RAMs that can not be exported

---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/ramdatahandle.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 97cd30d..94f2a79 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18114,6 +18114,9 @@ public:
   }
 
   void set(int r, int addr, int value){
+    if(r < 0 || r > (int)ramdata.size()){ // a RAM after a gap would be lost on export
+      throw Exception("Index out of range!");
+    }
     ramdata[r][addr] = value;
   }
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 78c56ec..9755d0f 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -20,6 +20,9 @@ public:
   }
 
   void set(int r, int addr, int value){
+    if(r < 0 || r > (int)ramdata.size()){ // a RAM after a gap would be lost on export
+      throw Exception("Index out of range!");
+    }
     ramdata[r][addr] = value;
   }
 
-- 
2.43.0


From 06a171d06109ce6c960bbdcf129181e0086f9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 11/38] fix: reject indexes outside of the data set

---
 include/wisardpkg.hpp | 3 +++
 src/data/dataset.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 94f2a79..a9d5744 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17785,6 +17785,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || (size_t)index >= data.size()){
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 4955031..4f73e8d 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -53,6 +53,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || (size_t)index >= data.size()){
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
-- 
2.43.0


From 85e8be2aff5caa905ce7bea9ff5ba6613abce1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 12/38] fix: raise an error instead of dividing by an address
 size of zero

---
 include/wisardpkg.hpp | 3 +++
 src/common/utils.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a9d5744..b43254a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17384,6 +17384,9 @@ inline bool hasSufix(const std::string& text, const std::string& sufix){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 2!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 398a249..633f4c3 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -52,6 +52,9 @@ inline bool hasSufix(const std::string& text, const std::string& sufix){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 2!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
-- 
2.43.0


From 504dfa2424b1e012042e04251299be78708d0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 13/38] fix: accept empty batches

---
 include/wisardpkg.hpp               | 11 ++++++++---
 src/models/cluswisard/cluswisard.cc |  7 +++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  1 +
 src/wrappers/wisardwrapper.cc       |  1 +
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b43254a..b54f5f6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18946,6 +18946,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18955,9 +18956,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19401,9 +19403,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19413,9 +19416,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -19447,6 +19451,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..323a18d 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -123,6 +125,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..dfe730c 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..2d94eb6 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,6 +39,7 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..e94a571 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,6 +91,7 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
-- 
2.43.0


From 9c2847e0fd36a78089596b78ee025a390879a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 14/38] fix: a discriminator learns a sample in all of its RAMs
 or in none

---
 include/wisardpkg.hpp              | 55 +++++++++++++++++++++++++-----
 src/models/wisard/discriminator.cc | 26 ++++++++++++--
 src/models/wisard/ram.cc           | 29 +++++++++++++---
 3 files changed, 94 insertions(+), 16 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b54f5f6..ed028d9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18318,12 +18318,29 @@ public:
     return getVote<BinInput>(image);
   }
 
-  void train(const std::vector<int>& image){
-    train<std::vector<int>>(image);
+  // it tells whether the image was the first one at its address
+  bool train(const std::vector<int>& image){
+    return train<std::vector<int>>(image);
   }
 
-  void train(const BinInput& image){
-    train<BinInput>(image);
+  bool train(const BinInput& image){
+    return train<BinInput>(image);
+  }
+
+  // it takes back a training of the same image
+  template<typename T>
+  void undoTrain(const T& image, const bool wasFirst){
+    auto it = positions.find(getIndex<T>(image));
+    if(wasFirst){
+      positions.erase(it);
+    }
+    else{
+      it->second--;
+    }
+  }
+
+  void checkImage(const std::vector<int>& image) const{
+    getIndex<std::vector<int>>(image);
   }
 
   void untrain(const std::vector<int>& image){
@@ -18411,14 +18428,16 @@ protected:
   }
 
   template<typename T>
-  void train(const T& image){
+  bool train(const T& image){
     addr_t index = getIndex<T>(image);
     auto it = positions.find(index);
     if(it == positions.end()){
       positions.insert(it,std::pair<addr_t,content_t>(index, 1));
+      return true;
     }
     else{
       it->second++;
+      return false;
     }
   }
 
@@ -18560,6 +18579,9 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      for(unsigned int i=0; i<rams.size(); i++){
+        rams[i].checkImage(image);
+      }
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18814,11 +18836,28 @@ protected:
 
   template<typename T>
   void train(const T& image) {
+    std::vector<bool> firsts;
+    train<T>(image, firsts);
+  }
+
+  // a training that fails in some RAM is taken back from the others
+  template<typename T>
+  void train(const T& image, std::vector<bool>& firsts) {
     checkEntrySize(image.size());
-    count++;
-    for(unsigned int i=0; i<rams.size(); i++){
-      rams[i].train(image);
+    firsts.resize(rams.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        firsts[trained] = rams[trained].train(image);
+      }
     }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        rams[i].undoTrain(image, firsts[i]);
+      }
+      throw;
+    }
+    count++;
   }
 
 private:
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index fc5cec0..f671533 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -85,6 +85,9 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      for(unsigned int i=0; i<rams.size(); i++){
+        rams[i].checkImage(image);
+      }
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -339,11 +342,28 @@ protected:
 
   template<typename T>
   void train(const T& image) {
+    std::vector<bool> firsts;
+    train<T>(image, firsts);
+  }
+
+  // a training that fails in some RAM is taken back from the others
+  template<typename T>
+  void train(const T& image, std::vector<bool>& firsts) {
     checkEntrySize(image.size());
-    count++;
-    for(unsigned int i=0; i<rams.size(); i++){
-      rams[i].train(image);
+    firsts.resize(rams.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        firsts[trained] = rams[trained].train(image);
+      }
     }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        rams[i].undoTrain(image, firsts[i]);
+      }
+      throw;
+    }
+    count++;
   }
 
 private:
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..39c7486 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -28,12 +28,29 @@ public:
     return getVote<BinInput>(image);
   }
 
-  void train(const std::vector<int>& image){
-    train<std::vector<int>>(image);
+  // it tells whether the image was the first one at its address
+  bool train(const std::vector<int>& image){
+    return train<std::vector<int>>(image);
   }
 
-  void train(const BinInput& image){
-    train<BinInput>(image);
+  bool train(const BinInput& image){
+    return train<BinInput>(image);
+  }
+
+  // it takes back a training of the same image
+  template<typename T>
+  void undoTrain(const T& image, const bool wasFirst){
+    auto it = positions.find(getIndex<T>(image));
+    if(wasFirst){
+      positions.erase(it);
+    }
+    else{
+      it->second--;
+    }
+  }
+
+  void checkImage(const std::vector<int>& image) const{
+    getIndex<std::vector<int>>(image);
   }
 
   void untrain(const std::vector<int>& image){
@@ -121,14 +138,16 @@ protected:
   }
 
   template<typename T>
-  void train(const T& image){
+  bool train(const T& image){
     addr_t index = getIndex<T>(image);
     auto it = positions.find(index);
     if(it == positions.end()){
       positions.insert(it,std::pair<addr_t,content_t>(index, 1));
+      return true;
     }
     else{
       it->second++;
+      return false;
     }
   }
 
-- 
2.43.0


From 668b05d54e1f259c6fdccfff875ef5b54abd637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 15/38] fix: WiSARD adds no class for a sample it could not
 learn

---
 include/wisardpkg.hpp       | 18 +++++++++++-------
 src/models/wisard/wisard.cc | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ed028d9..cb35fda 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19060,10 +19060,14 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d != discriminators.end()){
+      d->second.train(image);
+      return;
     }
-    discriminators[label].train(image);
+    Discriminator discriminator = makeDiscriminator(label, image.size());
+    discriminator.train(image);
+    discriminators.insert(std::make_pair(label, discriminator));
   }
 
   template<typename T>
@@ -19133,19 +19137,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index dfe730c..3657f9f 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -149,10 +149,14 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d != discriminators.end()){
+      d->second.train(image);
+      return;
     }
-    discriminators[label].train(image);
+    Discriminator discriminator = makeDiscriminator(label, image.size());
+    discriminator.train(image);
+    discriminators.insert(std::make_pair(label, discriminator));
   }
 
   template<typename T>
@@ -222,19 +226,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From a885524d3288d7dc82d17614d93b0ae79181fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 16/38] fix: clusters own their discriminators instead of
 leaking and sharing them

---
 include/wisardpkg.hpp            | 32 ++++++++++++++++----------------
 src/models/cluswisard/cluster.cc | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index cb35fda..5d3b381 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19226,7 +19226,7 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      discriminators.insert(std::make_pair((int)discriminators.size(), Discriminator(d)));
     }
   }
 
@@ -19265,16 +19265,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19290,8 +19290,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19301,7 +19301,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19312,14 +19312,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19328,20 +19328,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19349,7 +19349,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19362,7 +19362,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..82710ca 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -44,7 +44,7 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      discriminators.insert(std::make_pair((int)discriminators.size(), Discriminator(d)));
     }
   }
 
@@ -83,16 +83,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +108,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +119,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +130,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +146,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +167,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +180,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From dd16f80b65e50ff981459308cfeb6141d8ce760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 17/38] fix: a cluster learns a sample completely or not at all

---
 include/wisardpkg.hpp               | 103 ++++++++++++++++++----------
 src/models/cluswisard/cluster.cc    |  42 ++++++++----
 src/models/cluswisard/cluswisard.cc |  14 ++--
 src/models/wisard/discriminator.cc  |  47 ++++++++-----
 4 files changed, 130 insertions(+), 76 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5d3b381..4cbe4d7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18577,6 +18577,34 @@ public:
     }
   }
 
+  // a training that fails in some RAM is taken back from the others
+  template<typename T>
+  void train(const T& image, std::vector<bool>& firsts) {
+    checkEntrySize(image.size());
+    firsts.resize(rams.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        firsts[trained] = rams[trained].train(image);
+      }
+    }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        rams[i].undoTrain(image, firsts[i]);
+      }
+      throw;
+    }
+    count++;
+  }
+
+  template<typename T>
+  void undoTrain(const T& image, const std::vector<bool>& firsts) {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].undoTrain(image, firsts[i]);
+    }
+    count--;
+  }
+
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
       for(unsigned int i=0; i<rams.size(); i++){
@@ -18840,25 +18868,6 @@ protected:
     train<T>(image, firsts);
   }
 
-  // a training that fails in some RAM is taken back from the others
-  template<typename T>
-  void train(const T& image, std::vector<bool>& firsts) {
-    checkEntrySize(image.size());
-    firsts.resize(rams.size());
-    unsigned int trained = 0;
-    try{
-      for(; trained<rams.size(); trained++){
-        firsts[trained] = rams[trained].train(image);
-      }
-    }
-    catch(...){
-      for(unsigned int i=0; i<trained; i++){
-        rams[i].undoTrain(image, firsts[i]);
-      }
-      throw;
-    }
-    count++;
-  }
 
 private:
 
@@ -19311,20 +19320,22 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators.insert(std::make_pair((int)discriminators.size(), discriminator));
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(image);
       return;
     }
 
     float bestValue = 0.0;
-    bool trained = false;
+    std::vector<Discriminator*> chosen;
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
@@ -19341,20 +19352,32 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
-        trained = true;
+        chosen.push_back(&discriminators[i]);
       }
     }
 
-    if(!trained && (int)discriminators.size() < discriminatorsLimit){
-      int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
-      trained = true;
+    if(chosen.empty() && (int)discriminators.size() < discriminatorsLimit){
+      makeDiscriminator(image);
+      return;
+    }
+
+    if(chosen.empty() && bestDiscriminator != NULL){
+      chosen.push_back(bestDiscriminator);
     }
 
-    if(!trained && bestDiscriminator != NULL){
-      bestDiscriminator->train(image);
+    // a training that fails in some discriminator is taken back from the others
+    std::vector<std::vector<bool>> firsts(chosen.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<chosen.size(); trained++){
+        chosen[trained]->train(image, firsts[trained]);
+      }
+    }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        chosen[i]->undoTrain(image, firsts[i]);
+      }
+      throw;
     }
   }
 
@@ -19585,10 +19608,14 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c != clusters.end()){
+      c->second.train(image);
+      return;
     }
-    clusters[label].train(image);
+    Cluster cluster = makeCluster(image.size());
+    cluster.train(image);
+    clusters.insert(std::make_pair(label, cluster));
   }
 
   void train(const std::vector<int>& image){
@@ -19656,8 +19683,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 82710ca..2e2bcd1 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -129,20 +129,22 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators.insert(std::make_pair((int)discriminators.size(), discriminator));
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(image);
       return;
     }
 
     float bestValue = 0.0;
-    bool trained = false;
+    std::vector<Discriminator*> chosen;
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
@@ -159,20 +161,32 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
-        trained = true;
+        chosen.push_back(&discriminators[i]);
       }
     }
 
-    if(!trained && (int)discriminators.size() < discriminatorsLimit){
-      int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
-      trained = true;
+    if(chosen.empty() && (int)discriminators.size() < discriminatorsLimit){
+      makeDiscriminator(image);
+      return;
+    }
+
+    if(chosen.empty() && bestDiscriminator != NULL){
+      chosen.push_back(bestDiscriminator);
     }
 
-    if(!trained && bestDiscriminator != NULL){
-      bestDiscriminator->train(image);
+    // a training that fails in some discriminator is taken back from the others
+    std::vector<std::vector<bool>> firsts(chosen.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<chosen.size(); trained++){
+        chosen[trained]->train(image, firsts[trained]);
+      }
+    }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        chosen[i]->undoTrain(image, firsts[i]);
+      }
+      throw;
     }
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 323a18d..4e5c31c 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -216,10 +216,14 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c != clusters.end()){
+      c->second.train(image);
+      return;
     }
-    clusters[label].train(image);
+    Cluster cluster = makeCluster(image.size());
+    cluster.train(image);
+    clusters.insert(std::make_pair(label, cluster));
   }
 
   void train(const std::vector<int>& image){
@@ -287,8 +291,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index f671533..3bc358a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -83,6 +83,34 @@ public:
     }
   }
 
+  // a training that fails in some RAM is taken back from the others
+  template<typename T>
+  void train(const T& image, std::vector<bool>& firsts) {
+    checkEntrySize(image.size());
+    firsts.resize(rams.size());
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        firsts[trained] = rams[trained].train(image);
+      }
+    }
+    catch(...){
+      for(unsigned int i=0; i<trained; i++){
+        rams[i].undoTrain(image, firsts[i]);
+      }
+      throw;
+    }
+    count++;
+  }
+
+  template<typename T>
+  void undoTrain(const T& image, const std::vector<bool>& firsts) {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].undoTrain(image, firsts[i]);
+    }
+    count--;
+  }
+
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
       for(unsigned int i=0; i<rams.size(); i++){
@@ -346,25 +374,6 @@ protected:
     train<T>(image, firsts);
   }
 
-  // a training that fails in some RAM is taken back from the others
-  template<typename T>
-  void train(const T& image, std::vector<bool>& firsts) {
-    checkEntrySize(image.size());
-    firsts.resize(rams.size());
-    unsigned int trained = 0;
-    try{
-      for(; trained<rams.size(); trained++){
-        firsts[trained] = rams[trained].train(image);
-      }
-    }
-    catch(...){
-      for(unsigned int i=0; i<trained; i++){
-        rams[i].undoTrain(image, firsts[i]);
-      }
-      throw;
-    }
-    count++;
-  }
 
 private:
 
-- 
2.43.0


From 40e4311033f66feae717e1655d971cc74e41e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 18/38] fix: semi-supervised training learns the samples
 without a label, each of them once

---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4cbe4d7..852c3c4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19487,18 +19487,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19510,7 +19503,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 4e5c31c..5a05890 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -95,18 +95,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -118,7 +111,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 1d0e861e175de4264765b8f2f4061887b9cd3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 19/38] fix: the unsupervised cluster persists across calls and
 has the options of the model

---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 852c3c4..e122273 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19511,8 +19511,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = makeCluster(images[0].size());
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 5a05890..fd0e4dd 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -119,8 +119,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = makeCluster(images[0].size());
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 90cef71904d415c942b79e9af39799034915c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 20/38] fix: ClusWISARD answers labels that contain "::" as a
 whole

---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e122273..0aee999 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19527,7 +19527,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19542,7 +19542,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19614,7 +19614,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index fd0e4dd..7eabcd8 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -135,7 +135,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -150,7 +150,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -222,7 +222,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 2d94eb6..873f15b 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -47,7 +47,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -86,7 +86,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 1edb7fc6c9d0836ed7e01313a82f7abc6ee45652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 21/38] fix: asking for the mental image of an unknown class
 adds no class

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0aee999..4b360ef 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19552,7 +19552,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 7eabcd8..e786ebb 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -160,7 +160,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From da40ab35eba1aae472af15f84c30586393129a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 22/38] fix: mental images of RAMs with more than 31 address
 bits

---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4b360ef..84ad751 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18462,9 +18462,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 39c7486..64794ad 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -172,9 +172,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From 3549fc08c9293217e96d2bba5c035d5a601c400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 23/38] fix: enforce the limit of the address size for every
 base

---
 include/wisardpkg.hpp    | 9 ++++++---
 src/models/wisard/ram.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 84ad751..3660225 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18474,9 +18474,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0; // the biggest address
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 64794ad..7ee4e1e 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -184,9 +184,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0; // the biggest address
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From daa655084474fb7d5a4a53dc6476c4c0aec70c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 24/38] fix: reject mappings that reach outside of the input

---
 include/wisardpkg.hpp              | 17 ++++++++++++++++-
 src/models/wisard/discriminator.cc | 14 +++++++++++++-
 src/models/wisard/ram.cc           |  3 +++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3660225..f196c5a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18473,6 +18473,9 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
     addr_t biggest = 0; // the biggest address
     for(int i=0; i<addressSize; i++){
@@ -18745,11 +18748,15 @@ protected:
     rams = std::vector<RAM>(mapping.size());
 
     for (unsigned int i = 0; i < mapping.size(); i++){
+      checkMapping(mapping[i]);
       rams[i] = RAM(mapping[i], ignoreZero, base);
     }
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
+    for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+      checkMapping(it->get<std::vector<int>>());
+    }
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
@@ -18898,6 +18905,14 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<int>& addresses) const{
+    for(unsigned int i=0; i<addresses.size(); i++){
+      if(addresses[i] < 0 || addresses[i] >= entrySize){
+        throw Exception("The mapping has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -18905,7 +18920,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 3bc358a..f51ee32 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -248,11 +248,15 @@ protected:
     rams = std::vector<RAM>(mapping.size());
 
     for (unsigned int i = 0; i < mapping.size(); i++){
+      checkMapping(mapping[i]);
       rams[i] = RAM(mapping[i], ignoreZero, base);
     }
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
+    for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+      checkMapping(it->get<std::vector<int>>());
+    }
     if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
@@ -401,6 +405,14 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<int>& addresses) const{
+    for(unsigned int i=0; i<addresses.size(); i++){
+      if(addresses[i] < 0 || addresses[i] >= entrySize){
+        throw Exception("The mapping has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -408,7 +420,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 7ee4e1e..ce05de1 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -183,6 +183,9 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
     addr_t biggest = 0; // the biggest address
     for(int i=0; i<addressSize; i++){
-- 
2.43.0


From d415e41bb5bcb2e436d0e6fcbdfdab0504c01ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 25/38] fix: the confidence needed to stop the bleaching does
 not depend on the order of the labels

---
 include/wisardpkg.hpp   | 11 ++++++-----
 src/common/bleaching.cc | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f196c5a..62a8b4b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17585,16 +17585,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = -1;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
-      if(i->second > biggest){
+      if(i->second >= biggest){
+        if(i != candidates.begin()) secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = secondBiggest >= 0 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..ab72734 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -62,16 +62,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = -1;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
-      if(i->second > biggest){
+      if(i->second >= biggest){
+        if(i != candidates.begin()) secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = secondBiggest >= 0 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From e553c3b5e3df18ff6f198bdc1851d1e2b1ff2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 26/38] fix: the bleaching ends after as many steps as there
 are different votes

---
 include/wisardpkg.hpp   | 7 +++++--
 src/base.h              | 1 +
 src/common/bleaching.cc | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 62a8b4b..6c92cab 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -22,6 +22,7 @@ https://github.com/IAZero/wisardpkg
 #include <algorithm>    // std::random_shuffle
 #include <time.h>
 #include <exception>
+#include <limits>
 #include <cmath>
 
 /*
@@ -17544,16 +17545,18 @@ public:
     std::tuple<bool,int> ambiguity;
 
     do{
+      int lowestVote = std::numeric_limits<int>::max();
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            lowestVote = std::min(lowestVote, i->second[j]);
           }
         }
       }
-      if(!bleachingActivated) break;
-      bleaching++;
+      if(!bleachingActivated || lowestVote == std::numeric_limits<int>::max()) break;
+      bleaching = lowestVote+1; // nothing changes until then
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
diff --git a/src/base.h b/src/base.h
index 37d52bf..584c9d2 100644
--- a/src/base.h
+++ b/src/base.h
@@ -11,4 +11,5 @@
 #include <algorithm>    // std::random_shuffle
 #include <time.h>
 #include <exception>
+#include <limits>
 #include <cmath>
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index ab72734..b10c2f4 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -21,16 +21,18 @@ public:
     std::tuple<bool,int> ambiguity;
 
     do{
+      int lowestVote = std::numeric_limits<int>::max();
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            lowestVote = std::min(lowestVote, i->second[j]);
           }
         }
       }
-      if(!bleachingActivated) break;
-      bleaching++;
+      if(!bleachingActivated || lowestVote == std::numeric_limits<int>::max()) break;
+      bleaching = lowestVote+1; // nothing changes until then
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
-- 
2.43.0


From 34bc7625ed6baa7f29a553a80942b8734c9484f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 27/38] fix: the JSON of a WiSARD keeps its mapping

---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6c92cab..dae823e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19155,6 +19155,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 3657f9f..09a60f9 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -213,6 +213,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From 3c4b8de42f6c64e3fcd0a5e018998263fe399466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 28/38] fix: set the dimension of kernel canvases made in C++

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index dae823e..6af6b24 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17885,7 +17885,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 6f57ed4b733b7d87106fbf71bace558c222ba524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 29/38] fix: check the dimension of a sequence before reading
 it

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6af6b24..57e98ff 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17901,6 +17901,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17915,7 +17916,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..a8bdc56 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +32,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From b038cdcef400df50336dbded8d2e74475b80faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 30/38] fix: kernel canvases with direction stay inside of
 their points

---
 include/wisardpkg.hpp            | 8 ++++----
 src/binarization/kernelcanvas.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 57e98ff..ea71317 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18051,7 +18051,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18064,7 +18064,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18074,8 +18074,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index a8bdc56..c84a324 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -167,7 +167,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -180,7 +180,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -190,8 +190,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
-- 
2.43.0


From 6dba9f550495f669e185dca7eefda423bca7471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 31/38] fix: make synthetic samples of mental images without
 any intensity

---
 include/wisardpkg.hpp              | 2 +-
 src/synthetic_data/synthesizers.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ea71317..e3a34da 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17832,7 +17832,7 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
+    int index = maxData > 0 ? randint(0, maxData-1) : 0;
     std::vector<int> out(cube.size());
 
     for(unsigned int i=0; i<cube.size(); i++){
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..ac724f1 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,7 +8,7 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
+    int index = maxData > 0 ? randint(0, maxData-1) : 0;
     std::vector<int> out(cube.size());
 
     for(unsigned int i=0; i<cube.size(); i++){
-- 
2.43.0


From a10f815f61394928318f4182ade5d57f3c4d11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 32/38] fix: the Python discriminator accepts packed inputs

---
 src/wisard_bind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..cc81468 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -55,11 +55,11 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<DiscriminatorWrapper>(m, "Discriminator")
       .def(py::init<std::string>())
       .def(py::init<int,int,py::kwargs>())
-      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::train)
+      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const std::vector<std::vector<int>>&)) &DiscriminatorWrapper::train)
-      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::classify)
+      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("jsonConfig",(std::string (DiscriminatorWrapper::*)())  &DiscriminatorWrapper::jsonConfig)
       .def("json", (std::string (DiscriminatorWrapper::*)()) &DiscriminatorWrapper::json)
       .def("json", (std::string (DiscriminatorWrapper::*)(bool)) &DiscriminatorWrapper::json)
-- 
2.43.0


From 155fbf75facd71b4e22e57090f499b2cc126e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 33/38] fix: reject negative values of the input

---
 include/wisardpkg.hpp    | 2 +-
 src/models/wisard/ram.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e3a34da..3284c0e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18491,7 +18491,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index ce05de1..568c31e 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -197,7 +197,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
-- 
2.43.0


From caab71d3961b0ced373bcffe84cc9e43d87b885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 34/38] fix: raise an error for JSON that is nested too deep
 instead of exhausting the stack

---
 include/wisardpkg.hpp               | 29 ++++++++++++++++++++++++-----
 src/common/utils.cc                 | 19 +++++++++++++++++++
 src/models/cluswisard/cluswisard.cc |  4 ++--
 src/models/wisard/discriminator.cc  |  2 +-
 src/models/wisard/wisard.cc         |  4 ++--
 5 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3284c0e..5680075 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17408,6 +17408,25 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+// Parses a JSON text, nested deeper than any text of this library it would exhaust the stack.
+inline nl::json parseJSON(const std::string& text){
+  int depth = 0;
+  bool inString = false;
+  for(size_t i=0; i<text.size(); i++){
+    if(inString){
+      if(text[i] == '\\') i++;
+      else if(text[i] == '"') inString = false;
+    }
+    else if(text[i] == '"') inString = true;
+    else if(text[i] == '[' || text[i] == '{') depth++;
+    else if(text[i] == ']' || text[i] == '}') depth--;
+    if(depth > 100){
+      throw Exception("The JSON is nested too deep!");
+    }
+  }
+  return nl::json::parse(text);
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
@@ -18507,7 +18526,7 @@ class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
   Discriminator(int entrySize):entrySize(entrySize){}
-  Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
+  Discriminator(std::string config): Discriminator(parseJSON(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
     count = config["count"];
@@ -18985,8 +19004,8 @@ public:
     returnClassesDegrees = value.is_null() ? false : value.get<bool>();
   }
 
-  Wisard(std::string config):Wisard(0,nl::json::parse(config)){
-    nl::json c = nl::json::parse(config);
+  Wisard(std::string config):Wisard(0,parseJSON(config)){
+    nl::json c = parseJSON(config);
     addressSize=c["addressSize"];
 
     nl::json classes = c["classes"];
@@ -19457,8 +19476,8 @@ public:
 
     checkConfigInputs(minScore, threshold, discriminatorsLimit);
   }
-  ClusWisard(std::string config):ClusWisard(0,0,1,1,nl::json::parse(config)){
-      nl::json c = nl::json::parse(config);
+  ClusWisard(std::string config):ClusWisard(0,0,1,1,parseJSON(config)){
+      nl::json c = parseJSON(config);
       addressSize = c["addressSize"];
       minScore = c["minScore"];
       threshold = c["threshold"];
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 633f4c3..77dc3b7 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -75,6 +75,25 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+// Parses a JSON text, nested deeper than any text of this library it would exhaust the stack.
+inline nl::json parseJSON(const std::string& text){
+  int depth = 0;
+  bool inString = false;
+  for(size_t i=0; i<text.size(); i++){
+    if(inString){
+      if(text[i] == '\\') i++;
+      else if(text[i] == '"') inString = false;
+    }
+    else if(text[i] == '"') inString = true;
+    else if(text[i] == '[' || text[i] == '{') depth++;
+    else if(text[i] == ']' || text[i] == '}') depth--;
+    if(depth > 100){
+      throw Exception("The JSON is nested too deep!");
+    }
+  }
+  return nl::json::parse(text);
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index e786ebb..3669c84 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -42,8 +42,8 @@ public:
 
     checkConfigInputs(minScore, threshold, discriminatorsLimit);
   }
-  ClusWisard(std::string config):ClusWisard(0,0,1,1,nl::json::parse(config)){
-      nl::json c = nl::json::parse(config);
+  ClusWisard(std::string config):ClusWisard(0,0,1,1,parseJSON(config)){
+      nl::json c = parseJSON(config);
       addressSize = c["addressSize"];
       minScore = c["minScore"];
       threshold = c["threshold"];
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index f51ee32..59c6ead 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -3,7 +3,7 @@ class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
   Discriminator(int entrySize):entrySize(entrySize){}
-  Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
+  Discriminator(std::string config): Discriminator(parseJSON(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
     count = config["count"];
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 09a60f9..eabdb0a 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -43,8 +43,8 @@ public:
     returnClassesDegrees = value.is_null() ? false : value.get<bool>();
   }
 
-  Wisard(std::string config):Wisard(0,nl::json::parse(config)){
-    nl::json c = nl::json::parse(config);
+  Wisard(std::string config):Wisard(0,parseJSON(config)){
+    nl::json c = parseJSON(config);
     addressSize=c["addressSize"];
 
     nl::json classes = c["classes"];
-- 
2.43.0


From 7ee4b8f879400494b4f81469258649157a40ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 35/38] fix: an empty text of RAM data is one empty RAM, as an
 empty file is

---
 include/wisardpkg.hpp              | 4 ++--
 src/models/wisard/ramdatahandle.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5680075..e27d11c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18214,11 +18214,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 9755d0f..e3e81c6 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -91,11 +91,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
-- 
2.43.0


From 1805336f5019dc15fbf6c7f0f7d3f482f7b08bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 36/38] fix: running out of memory while reading JSON no longer
 leaves a value without its contents

---
 include/wisardpkg.hpp | 28 ++++++++++++++--------------
 src/libs/json.hpp     | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e27d11c..f2ba598 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -3285,8 +3285,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to object to cope with {}
-                        result.m_type = value_t::object;
                         result.m_value = value_t::object;
+                        result.m_type = value_t::object;
                     }
                 }
 
@@ -3389,8 +3389,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to array to cope with []
-                        result.m_type = value_t::array;
                         result.m_value = value_t::array;
+                        result.m_type = value_t::array;
                     }
                 }
 
@@ -3459,8 +3459,8 @@ class parser
 
             case token_type::value_string:
             {
-                result.m_type = value_t::string;
                 result.m_value = m_lexer.move_string();
+                result.m_type = value_t::string;
                 break;
             }
 
@@ -11036,8 +11036,8 @@ class basic_json
         if (is_an_object)
         {
             // the initializer list is a list of pairs -> create object
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
 
             std::for_each(init.begin(), init.end(), [this](const detail::json_ref<basic_json>& element_ref)
             {
@@ -12685,8 +12685,8 @@ class basic_json
         // implicitly convert null value to an empty array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value.array = create<array_t>();
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -12769,8 +12769,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -12858,8 +12858,8 @@ class basic_json
         // implicitly convert null to object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14300,8 +14300,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14336,8 +14336,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14386,8 +14386,8 @@ class basic_json
         // transform null object into an object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14487,8 +14487,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14535,8 +14535,8 @@ class basic_json
         // transform null object into an object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14823,8 +14823,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14874,8 +14874,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
diff --git a/src/libs/json.hpp b/src/libs/json.hpp
index 65dc6da..b6d6868 100644
--- a/src/libs/json.hpp
+++ b/src/libs/json.hpp
@@ -3259,8 +3259,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to object to cope with {}
-                        result.m_type = value_t::object;
                         result.m_value = value_t::object;
+                        result.m_type = value_t::object;
                     }
                 }
 
@@ -3363,8 +3363,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to array to cope with []
-                        result.m_type = value_t::array;
                         result.m_value = value_t::array;
+                        result.m_type = value_t::array;
                     }
                 }
 
@@ -3433,8 +3433,8 @@ class parser
 
             case token_type::value_string:
             {
-                result.m_type = value_t::string;
                 result.m_value = m_lexer.move_string();
+                result.m_type = value_t::string;
                 break;
             }
 
@@ -11010,8 +11010,8 @@ class basic_json
         if (is_an_object)
         {
             // the initializer list is a list of pairs -> create object
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
 
             std::for_each(init.begin(), init.end(), [this](const detail::json_ref<basic_json>& element_ref)
             {
@@ -12659,8 +12659,8 @@ class basic_json
         // implicitly convert null value to an empty array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value.array = create<array_t>();
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -12743,8 +12743,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -12832,8 +12832,8 @@ class basic_json
         // implicitly convert null to object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14274,8 +14274,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14310,8 +14310,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14360,8 +14360,8 @@ class basic_json
         // transform null object into an object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14461,8 +14461,8 @@ class basic_json
         // transform null object into an array
         if (is_null())
         {
-            m_type = value_t::array;
             m_value = value_t::array;
+            m_type = value_t::array;
             assert_invariant();
         }
 
@@ -14509,8 +14509,8 @@ class basic_json
         // transform null object into an object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value = value_t::object;
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14797,8 +14797,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
@@ -14848,8 +14848,8 @@ class basic_json
         // implicitly convert null value to an empty object
         if (is_null())
         {
-            m_type = value_t::object;
             m_value.object = create<object_t>();
+            m_type = value_t::object;
             assert_invariant();
         }
 
-- 
2.43.0


From 90bc2532211d20b3a1116f27cfcd9893f6d0d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 37/38] fix: running out of memory while building a JSON object
 no longer leaks it

---
 include/wisardpkg.hpp | 3 ++-
 src/libs/json.hpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f2ba598..b2d167d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -11008,6 +11008,7 @@ class basic_json
     basic_json(initializer_list_t init,
                bool type_deduction = true,
                value_t manual_type = value_t::array)
+        : basic_json() // so that the contents are released when a later step throws
     {
         // check if each element is an array with two elements whose first
         // element is a string
@@ -11050,8 +11051,8 @@ class basic_json
         else
         {
             // the initializer list describes an array -> create array
-            m_type = value_t::array;
             m_value.array = create<array_t>(init.begin(), init.end());
+            m_type = value_t::array;
         }
 
         assert_invariant();
diff --git a/src/libs/json.hpp b/src/libs/json.hpp
index b6d6868..2a5149f 100644
--- a/src/libs/json.hpp
+++ b/src/libs/json.hpp
@@ -10982,6 +10982,7 @@ class basic_json
     basic_json(initializer_list_t init,
                bool type_deduction = true,
                value_t manual_type = value_t::array)
+        : basic_json() // so that the contents are released when a later step throws
     {
         // check if each element is an array with two elements whose first
         // element is a string
@@ -11024,8 +11025,8 @@ class basic_json
         else
         {
             // the initializer list describes an array -> create array
-            m_type = value_t::array;
             m_value.array = create<array_t>(init.begin(), init.end());
+            m_type = value_t::array;
         }
 
         assert_invariant();
-- 
2.43.0


From f28f56ba04316b04a880932ae7b3761b91ffc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 38/38] fix: an entry that could not be added to a data set
 left its label for the next one

---
 include/wisardpkg.hpp | 12 +++++++++---
 src/data/dataset.cc   | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b2d167d..861049c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17795,16 +17795,22 @@ public:
   }
 
   void add(const BinInput& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
     data.push_back(input);
+    try{
+      if(label.size()>0) labels[data.size()-1]=label;
+    }
+    catch(...){ // an entry that could not be added must not leave its label
+      labels.erase(data.size()-1);
+      data.pop_back();
+      throw;
+    }
   }
 
   void add(const std::vector<short>& input){
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input), label);
   }
 
   const BinInput& operator[](int index) const {
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 4f73e8d..2151457 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -36,16 +36,22 @@ public:
   }
 
   void add(const BinInput& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
     data.push_back(input);
+    try{
+      if(label.size()>0) labels[data.size()-1]=label;
+    }
+    catch(...){ // an entry that could not be added must not leave its label
+      labels.erase(data.size()-1);
+      data.pop_back();
+      throw;
+    }
   }
 
   void add(const std::vector<short>& input){
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input), label);
   }
 
   const BinInput& operator[](int index) const {
-- 
2.43.0

