From 5caf516c34d667bd2f32c20c1325230ca0caf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:09 +0000
Subject: [PATCH 01/54] fix: write cached files atomically

A crash, a disk error or a second process could leave or see a truncated
file under its final name in the cache, which every later open then used.
The bytes are now stored as they were received (they need not be UTF-8).
---
 brel/data/file/pyfs_file_repository.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..cfab89c 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -11,6 +11,9 @@ It downloads and caches files from the internet and the local file system.
 =================
 """
 
+import os
+import tempfile
+
 import fs
 from brel.data.file.file_repository import FileRepository
 from brel.parsers.utils.file_utils import uri_to_filename
@@ -28,10 +31,22 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
+        # The file only gets its final name once its whole content is on the disk.
+        # Otherwise a crash, a full disk or another process opening the same file
+        # could leave or see an incomplete file in the cache.
+        file_path = self.fs.getsyspath(uri_to_filename(uri))
+        temp_fd, temp_path = tempfile.mkstemp(
+            dir=os.path.dirname(file_path), prefix=".", suffix=".tmp"
         )
+        try:
+            with os.fdopen(temp_fd, "wb") as temp_file:
+                temp_file.write(file.read())
+                temp_file.flush()
+                os.fsync(temp_file.fileno())
+            os.replace(temp_path, file_path)
+        except BaseException:
+            os.remove(temp_path)
+            raise
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From cfe23b8bdc9f7a177d8e0e5241f879a158ac468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:09 +0000
Subject: [PATCH 02/54] fix: do not fail when another process creates the cache
 folder

Two processes that open their first filing at the same time both try to
create the folder; the one that came second failed with an exception.
---
 brel/data/file/pyfs_file_repository.py | 3 ++-
 brel/utils/edgar.py                    | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index cfab89c..b0aa4f3 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -26,7 +26,8 @@ class PyFsFileRepository(FileRepository):
         cache_location: str,
         clear_cache: bool = True,
     ) -> None:
-        self.fs = fs.open_fs(cache_location, create=True)
+        os.makedirs(cache_location, exist_ok=True)
+        self.fs = fs.open_fs(cache_location)
         if clear_cache:
             self.fs.removetree("/")
 
diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..c2393b9 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -14,8 +14,7 @@ session = requests.Session()
 
 # the edgar cache dir is in the user's home directory in .brel_edgar_cache
 # create the directory if it does not exist
-if not os.path.exists(os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")):
-    os.makedirs(os.path.join(os.path.expanduser("~"), ".brel_edgar_cache"))
+os.makedirs(os.path.join(os.path.expanduser("~"), ".brel_edgar_cache"), exist_ok=True)
 edgar_cache_dir = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
 
 
-- 
2.43.0


From 49c0a43ec8557c4b8db421defa6b908d5966ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:30 +0000
Subject: [PATCH 03/54] fix: store EDGAR metadata atomically

A crash or a disk error while the metadata was written left a truncated
JSON file, and every later open_edgar call for that company failed.
---
 brel/utils/edgar.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index c2393b9..6baf9c2 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -6,7 +6,7 @@ The module also provides a function for listing all filings for a given CIK and
 """
 
 from brel import Filing
-import requests, json, os, datetime
+import requests, json, os, datetime, tempfile
 
 SUPPORTED_FILING_TYPES = ["10-K", "10-Q", "8-K"]
 
@@ -32,8 +32,21 @@ def __download_metadata_for_cik(cik: str) -> bool:
         return False
 
     response_json = response.json()
-    with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "w") as f:
-        json.dump(response_json, f)
+
+    # The file only gets its final name once its whole content is on the disk.
+    # A crash or a full disk must not leave incomplete metadata in the cache.
+    temp_fd, temp_path = tempfile.mkstemp(
+        dir=edgar_cache_dir, prefix=".", suffix=".tmp"
+    )
+    try:
+        with os.fdopen(temp_fd, "w") as f:
+            json.dump(response_json, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_path, os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
+    except BaseException:
+        os.remove(temp_path)
+        raise
 
     return True
 
-- 
2.43.0


From 470bfb3281b9aac9cfcad83c2f392a8df2045dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:02 +0000
Subject: [PATCH 04/54] fix: refresh EDGAR metadata that is older than one day

timedelta.days is truncated, so metadata was only refreshed once it was
two days old; and the difference of two local times is an hour off when
daylight saving time begins or ends in between.
---
 brel/utils/edgar.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 6baf9c2..4c3bb10 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -6,7 +6,7 @@ The module also provides a function for listing all filings for a given CIK and
 """
 
 from brel import Filing
-import requests, json, os, datetime, tempfile
+import requests, json, os, datetime, tempfile, time
 
 SUPPORTED_FILING_TYPES = ["10-K", "10-Q", "8-K"]
 
@@ -122,11 +122,10 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
     else:
         # if the file is older than 1 day, download it again
         if (
-            datetime.datetime.now()
-            - datetime.datetime.fromtimestamp(
-                os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
-            )
-        ).days > 1:
+            time.time()
+            - os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
+            > 24 * 60 * 60
+        ):
             if not __download_metadata_for_cik(cik):
                 raise ValueError(f"Failed to download metadata for CIK {cik}")
 
-- 
2.43.0


From 1a5de723a115a60f2bd3a827af24f9b63c6d9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:02 +0000
Subject: [PATCH 05/54] fix: do not wait for ever for an EDGAR server that
 never answers

---
 brel/utils/edgar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 4c3bb10..0e6078d 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -27,7 +27,9 @@ def __download_metadata_for_cik(cik: str) -> bool:
     print(f"Downloading metadata for CIK {cik}")
     sec_data_uri = f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"
 
-    response = session.get(sec_data_uri, headers={"User-Agent": "Mozilla/5.0"})
+    response = session.get(
+        sec_data_uri, headers={"User-Agent": "Mozilla/5.0"}, timeout=10
+    )
     if response.status_code != 200:
         return False
 
@@ -169,6 +171,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
                     "Accept-Encoding": "gzip",
                     "Host": "www.sec.gov",
                 },
+                timeout=10,
             )
             if ping.status_code != 200:
                 raise ValueError(
-- 
2.43.0


From bed2fac1e86cc908442408885b1647121d6c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 06/54] fix: read local files from where they are

Local files were copied into the cache under their base name and never
refreshed: an edited file kept its old content for ever, and files with
the same name in different folders took each other's place. Paths that
contain '?' or '#' could not be opened at all.
---
 brel/services/file/file_service.py |  6 ++----
 brel/services/xml/xml_service.py   | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..c054693 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -62,7 +62,5 @@ class FileService:
 
         return self.get_file(uri)
 
-    def copy_and_add_file(self, local_path: str) -> IO[bytes]:
-        with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+    def get_local_file(self, local_path: str) -> IO[bytes]:
+        return open(local_path, "rb")
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..46303a1 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,6 +9,7 @@
 """
 
 import re
+from io import BytesIO
 from typing import List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -64,20 +65,20 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        if not is_uri_remote:
+            file = self.__file_service.get_local_file(uri)
+        elif self.__file_service.has_file(uri):
+            file = self.__file_service.get_file(uri)
         else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+            file = self.__file_service.download_and_add_file(uri)
+
+        with file:
+            content = file.read()
+
+        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
 
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
+        for reference_uri in self.__extract_references(content):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __extract_references(self, content: bytes) -> set[str]:
         reference_uris: set[str] = set()
-- 
2.43.0


From 3b7f4930c192132ee06d3060fd0c78aa79787055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 07/54] fix: follow the references of files that are not UTF-8

---
 brel/services/xml/xml_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 46303a1..f188897 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -86,7 +86,7 @@ class XMLService:
             r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
         )
 
-        for match in reference_pattern.finditer(content.decode("utf-8")):
+        for match in reference_pattern.finditer(content.decode("utf-8", errors="replace")):
             href = match.group(1)
             if href:
                 if "#" in href:
-- 
2.43.0


From 7110fab35e2b93147fc433983efae5d713ac4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 08/54] fix: load every local file once and follow remote
 references to mapped files

The same local file was loaded again for every spelling of its path
(./a.xsd, b/../a.xsd), which added its facts and networks twice or never
ended for files that refer to each other. A file that the catalog maps to
a local one was treated as remote when a remote file refers to it.
---
 brel/services/xml/xml_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index f188897..de45008 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import os
 import re
 from io import BytesIO
 from typing import List, Optional, Set
@@ -58,7 +59,9 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = uri.startswith("http")
+        if not is_uri_remote:
+            uri = os.path.normpath(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
-- 
2.43.0


From 0b90673a9b222a957ef2727b05a793657fb3ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 09/54] fix: apply the longest matching rewriteURI entry of a
 catalog

---
 brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..db092f2 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,7 +22,9 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
+        # the longest matching start string wins, as the catalog specification says
+        for original_string in sorted(self.__catalog, key=len, reverse=True):
+            replacement_string = self.__catalog[original_string]
             if uri.startswith(original_string):
                 return replacement_string + uri[len(original_string) :]
 
-- 
2.43.0


From 939d8a10d457d9a2f8f4fdf13592f2fce527af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 10/54] fix: return facts that have no id

---
 brel/data/fact/in_memory_fact_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..a299f08 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -31,7 +31,7 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts_by_id.values()) + self.__facts_without_id
 
     def upsert(self, fact: Fact) -> None:
         """
-- 
2.43.0


From 7483c64cbde0e721ed93ce974177819adf3f0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 11/54] fix: give every remote URI its own file in the cache

http://a/b_c.xsd and http://a/b/c.xsd, or the http and https forms of a
URI, shared one cached file; very long URIs could not be stored at all.
---
 brel/parsers/utils/file_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..c483e6c 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -29,6 +30,7 @@ def uri_to_filename(uri: str) -> str:
         else:
             return posix_uri
 
+    uri_hash = hashlib.sha256(uri.encode("utf-8")).hexdigest()
     uri = uri.replace("." + file_format, "")
 
     if "http" in uri:
@@ -51,4 +53,5 @@ def uri_to_filename(uri: str) -> str:
     # replace all \ with _
     uri = uri.replace("\\", "_")
 
-    return uri + file_format
+    # different uris can look the same by now, and file systems limit the length of a name
+    return uri[:40] + "_" + uri_hash + file_format[:10]
-- 
2.43.0


From f990d06d3bb4027ec341140a8172d1a728085813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:22 +0000
Subject: [PATCH 12/54] fix: open the same input always to the same filing

The order of roots, children, networks, labels, languages, files and facts
came from sets of strings and objects and from os.listdir, so it changed
with the hash seed, object addresses and the file system.
---
 brel/networks/i_network.py                    | 12 ++++----
 brel/networks/i_network_node.py               |  4 +--
 .../networks/xhtml_parse_footnote_network.py  | 28 ++++++++++---------
 .../XML/networks/xml_extended_link_parser.py  | 23 +++++++--------
 .../path_loaders/folder_path_loader.py        |  2 +-
 .../report_element/report_element_service.py  | 24 ++++++++--------
 brel/services/xml/xml_service.py              | 17 +++++------
 7 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..c1f2fea 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -86,7 +86,9 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
+        arc_role_set = dict.fromkeys(
+            [node.get_arc_role() for node in self.get_all_nodes()]
+        )
         return list(arc_role_set)
 
     def get_arc_name(self) -> QName | None:
@@ -118,12 +120,12 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # create an ordered set to store all nodes in
+        nodes: Dict[INetworkNode, None] = {}
 
         # recursive function to add all children of a node to the nodes set
         def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
+            nodes[node] = None
             for child in node.get_children():
                 add_children(child)
 
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..19af0a9 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,11 +126,11 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        descendants: Dict["INetworkNode", None] = {}
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
+            descendants[node] = None
             worklist.extend(node.get_children())
 
         return list(descendants)
diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..96e05f8 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[Dict[str, None], Dict[str, None]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,17 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    # dicts are used as ordered sets: the result must not depend on hash values
+    fromIds = dict.fromkeys(fromRefs.split())
+    toIds = dict.fromkeys(toRefs.split())
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: Dict[str, None],
+    toIds: Dict[str, None],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -224,7 +226,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[Dict[str, None], Dict[str, None], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -246,12 +248,12 @@ def parse_relationship(
 
 
 def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[Dict[str, None], Dict[str, None], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ):
-    all_ids = set()
-    internal_ids = set()
+    all_ids: Dict[str, None] = {}
+    internal_ids: Dict[str, None] = {}
 
     # Compute Ids of root nodes
     for from_ids, to_ids, _, _, _ in arcs:
@@ -259,7 +261,7 @@ def create_footnote_network_nodes(
         all_ids.update(to_ids)
         internal_ids.update(to_ids)
 
-    root_ids = all_ids - internal_ids
+    root_ids = [id for id in all_ids if id not in internal_ids]
 
     id_to_node: Dict[str, FootnoteNetworkNode] = {}
 
@@ -304,7 +306,7 @@ def create_footnote_network_nodes(
 
 
 def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[Dict[str, None], Dict[str, None], str, str, float]],
     id_to_node: Dict[str, FootnoteNetworkNode],
 ):
     for from_ids, to_ids, _, _, _ in arcs:
@@ -315,7 +317,7 @@ def connect_footnote_network_nodes(
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[Dict[str, None], Dict[str, None], str, str, float]],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
@@ -329,12 +331,12 @@ def build_footnote_network(
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[Dict[str, None], Dict[str, None], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[Dict[str, None], Dict[str, None], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..284a755 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -116,9 +116,10 @@ def parse_xml_link(
 
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
+        # dicts are used as ordered sets: the result must not depend on hash values
+        edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        roots: dict[INetworkNode, None] = {}
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
@@ -134,7 +135,7 @@ def parse_xml_link(
                 )
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
+            edges[(arc_from, arc_to, arc_role)] = None
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
@@ -176,18 +177,18 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots[node] = None
                     nodes_lookup[label].append(node)
                 else:
-                    outgoing_role_types = set(
+                    outgoing_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
                     )
 
-                    incoming_role_types = set(
+                    incoming_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
                     )
 
-                    for role_type in incoming_role_types.union(outgoing_role_types):
+                    for role_type in incoming_role_types | outgoing_role_types:
                         node_arcs.sort(
                             key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
                             reverse=True,
@@ -214,7 +215,7 @@ def parse_xml_link(
                             continue
 
                         if role_type not in incoming_role_types:
-                            roots.add(node)
+                            roots[node] = None
                         nodes_lookup[label].append(node)
 
             else:
@@ -230,7 +231,7 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots[node] = None
                     nodes_lookup[label].append(node)
                 else:
                     arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
@@ -243,7 +244,7 @@ def parse_xml_link(
                         continue
 
                     if len(arcs_to) == 0:
-                        roots.add(node)
+                        roots[node] = None
                     nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
@@ -270,7 +271,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..b343e71 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..e73cd02 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -27,20 +27,20 @@ class ReportElementService:
     def get_fuzzy_typed[
         T: IReportElement
     ](self, search_params: QNameSearchParams, report_element_type: type[T],) -> list[T]:
-        uri_candidates: set[str] = set()
+        uri_candidates: list[str] = []
         if search_params.uri:
-            uri_candidates.add(search_params.uri)
+            uri_candidates.append(search_params.uri)
 
-        prefix_candidates: set[str] = set()
+        prefix_candidates: list[str] = []
         if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
+            prefix_candidates.append(search_params.prefix)
 
         if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
+            prefix_candidates = sorted(
                 self.__namespace_repository.get_prefixes(search_params.uri)
             )
         elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
+            uri_candidates = sorted(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
@@ -79,20 +79,20 @@ class ReportElementService:
 
     def get_fuzzy(self, search_params: QNameSearchParams) -> list[IReportElement]:
         # TODO schmidi replace with call to find_typed and make typechecker happy somehow
-        uri_candidates: set[str] = set()
+        uri_candidates: list[str] = []
         if search_params.uri:
-            uri_candidates.add(search_params.uri)
+            uri_candidates.append(search_params.uri)
 
-        prefix_candidates: set[str] = set()
+        prefix_candidates: list[str] = []
         if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
+            prefix_candidates.append(search_params.prefix)
 
         if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
+            prefix_candidates = sorted(
                 self.__namespace_repository.get_prefixes(search_params.uri)
             )
         elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
+            uri_candidates = sorted(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index de45008..4b6a29f 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -11,7 +11,7 @@
 import os
 import re
 from io import BytesIO
-from typing import List, Optional, Set
+from typing import Dict, List, Optional
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -83,8 +83,9 @@ class XMLService:
         for reference_uri in self.__extract_references(content):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
+    def __extract_references(self, content: bytes) -> dict[str, None]:
+        # in the order of the document, so that every open loads the files in the same order
+        reference_uris: dict[str, None] = {}
         reference_pattern = re.compile(
             r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
         )
@@ -98,13 +99,13 @@ class XMLService:
                     href_uri = href
 
                 if href_uri:
-                    reference_uris.add(href_uri)
+                    reference_uris[href_uri] = None
 
             schema_location = match.group(2)
             if schema_location:
                 # get only last part, as there can be 2 links, only the second of which is relevant in our case.
                 schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
+                reference_uris[schema_location] = None
 
         return reference_uris
 
@@ -116,18 +117,18 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            all_languages: Dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
+                tree_languages = dict.fromkeys(
                     get_str_attribute(element_with_lang, "xml:lang")
                     for element_with_lang in elements_with_lang
                 )
 
-                all_languages = all_languages.union(tree_languages)
+                all_languages = all_languages | tree_languages
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From 5c749aa1d2b3a260c69bbf390ef0f59b133d306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:32 +0000
Subject: [PATCH 13/54] fix: find the translations whatever the working
 directory is

Every table export failed unless the working directory was brel's source
folder.
---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..d01e76e 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -44,4 +45,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return os.path.join(os.path.dirname(__file__), "translations.csv")
-- 
2.43.0


From 1ece25c7ec8deb361289deeb0ce998f3ce5a371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 14/54] fix: keep match_locale of one export out of another

Two threads exporting from one filing shared one translation service, so
one call's match_locale decided which labels the other call exported.
---
 brel/brel_filing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..92243b6 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -45,6 +45,7 @@ Once a filing is loaded, it can be queried for its facts, report elements, netwo
 """
 
 import os
+from copy import copy
 import pandas as pd
 from pyspark import sql
 from typing import Any, List, Optional, Unpack, cast
@@ -503,7 +504,8 @@ class Filing:
         output_params = self.__infer_output_params(**kwargs)
         data = []
 
-        translation_service = self.__context.get_translation_service()
+        # a copy, because another thread may export with another value of match_locale
+        translation_service = copy(self.__context.get_translation_service())
         translation_service.set_match_locale(output_params["match_locale"])
 
         if output_params["allow_mixed"]:
-- 
2.43.0


From 04d2650b4268aef0312817a1ca7ab4e7247e148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 15/54] fix: give inline footnote networks their link role, not
 their arc role

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 96e05f8..24c1a62 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -345,7 +345,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From 288ec5de71a2e2f62b5b2ae7fe993eee1643e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 16/54] fix: open inline filings whose footnote relationships
 have no order

The order attribute is optional, but a relationship without it ended the
open with an UnboundLocalError.
---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 24c1a62..43f3ec2 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -203,6 +203,7 @@ def parse_relationship_attributes(
         # Assume default linkrole
         linkrole = "http://www.xbrl.org/2003/role/link"
 
+    order = 1.0
     order_str = get_str_attribute_optional(relationship_element, "order")
 
     if order_str:
@@ -215,9 +216,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From 6f620c7e989f393363245642e23ba038c8ecd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 17/54] fix: take a file's references from the parsed document

Searching the text found references in comments and in escaped text,
asked for 'a.xsd?x=1&amp;y=2' with the entity in it, and missed the
references of documents in UTF-16 or with spaces around the equals sign.
---
 brel/services/xml/xml_service.py | 38 ++++++++++++--------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 4b6a29f..6a8203c 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,7 +9,6 @@
 """
 
 import os
-import re
 from io import BytesIO
 from typing import Dict, List, Optional
 import urllib.parse
@@ -78,34 +77,25 @@ class XMLService:
         with file:
             content = file.read()
 
-        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
+        etree = parser(BytesIO(content))
+        self.__xml_repository.add_etree(uri, etree)
 
-        for reference_uri in self.__extract_references(content):
+        for reference_uri in self.__extract_references(etree):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
-    def __extract_references(self, content: bytes) -> dict[str, None]:
+    def __extract_references(self, etree: _ElementTree) -> dict[str, None]:
         # in the order of the document, so that every open loads the files in the same order
         reference_uris: dict[str, None] = {}
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8", errors="replace")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris[href_uri] = None
-
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris[schema_location] = None
+
+        for element in etree.iter("*"):
+            for attribute, value in element.attrib.items():
+                if attribute.startswith("{") and attribute.endswith("}href"):
+                    href_uri = value.split("#")[0].strip()
+                    if href_uri:
+                        reference_uris[href_uri] = None
+                elif attribute.split("}")[-1] == "schemaLocation" and value.strip():
+                    # get only last part, as there can be 2 links, only the second of which is relevant in our case.
+                    reference_uris[value.split()[-1]] = None
 
         return reference_uris
 
-- 
2.43.0


From 1c887e22c6f3a2fd4253ccb539273c1d93d82d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:11 +0000
Subject: [PATCH 18/54] fix: keep the value of inline facts that are zero

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..d931c01 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if fact_value == "" or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From 651d99a04ad1b87094ed8a792337a3a24cc21e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:24 +0000
Subject: [PATCH 19/54] fix: end continuation chains that lead back to
 themselves

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..2bf236d 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,10 @@ def create_continuation_chains(
 
                 break
 
+            if continuation in continuation_chain:
+                # the chain leads back to itself
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
-- 
2.43.0


From 6e1b5a7eedeefe6c8f13066495b5c14afe923b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:24 +0000
Subject: [PATCH 20/54] fix: report unused continuations in document order

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 2bf236d..ad6e87f 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -113,9 +113,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From f405467975e6427d416129c93134f43bb769cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 21/54] fix: find elements whatever prefix the document gives
 their namespace

---
 brel/qnames/qname.py                                   | 5 +++--
 brel/services/report_element/report_element_service.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..ff1c549 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # A prefix is only a shorthand: the same name may have another one in each document.
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index e73cd02..2435b3f 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -45,7 +45,7 @@ class ReportElementService:
             )
 
         if uri_candidates or prefix_candidates:
-            qname_candidates = (
+            qname_candidates = dict.fromkeys(
                 QName(
                     uri,
                     prefix,
@@ -102,7 +102,7 @@ class ReportElementService:
                     self.__report_element_repository.get_by_qname,
                     filter(
                         lambda qname: self.__report_element_repository.has_qname(qname),
-                        [
+                        dict.fromkeys(
                             QName(
                                 uri,
                                 prefix,
@@ -110,7 +110,7 @@ class ReportElementService:
                             )
                             for uri in uri_candidates
                             for prefix in prefix_candidates
-                        ],
+                        ),
                     ),
                 )
             )
-- 
2.43.0


From 1e14c685dcfba2677c4a997dee5e46c3ef8c9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 22/54] fix: keep the SEC's pace and identify brel on redirects
 too

---
 brel/services/file/file_service.py | 35 +++++++++++++++++++++---------
 brel/utils/edgar.py                | 17 ++++++++++-----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index c054693..bea06af 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -11,11 +11,25 @@
 import time
 from io import BytesIO
 from typing import IO
-from requests import Session
+from requests import Response, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
 
+SEC_HOST = "www.sec.gov"
+
+# A request that is redirected to the SEC carries these headers too.
+IDENTIFYING_HEADERS = {"User-Agent": "Robin Schmidiger rschmidiger64@gmail.com"}
+
+
+def wait_before_sec_redirect(response: Response, *args, **kwargs) -> None:
+    """
+    Response hook that keeps the pause between two requests to the SEC when a redirect is followed.
+    """
+    location = response.headers.get("location", "")
+    if response.is_redirect and SEC_HOST in (response.url + location).lower():
+        time.sleep(0.1)
+
 
 class FileService:
     def __init__(
@@ -38,17 +52,18 @@ class FileService:
         return self.__file_repository.has_file(uri)
 
     def download_and_add_file(self, uri: str) -> IO[bytes]:
-        headers = {}
-
-        if "www.sec.gov" in uri:
-            headers = {
-                "User-Agent": "Robin Schmidiger rschmidiger64@gmail.com",
-                "Accept-Encoding": "gzip",
-                "Host": "www.sec.gov",
-            }
+        headers = dict(IDENTIFYING_HEADERS)
+
+        if SEC_HOST in uri.lower():
+            headers["Accept-Encoding"] = "gzip"
             time.sleep(0.1)
 
-        response = self.__session.get(uri, headers=headers, timeout=10)
+        response = self.__session.get(
+            uri,
+            headers=headers,
+            timeout=10,
+            hooks={"response": wait_before_sec_redirect},
+        )
         try:
             response.raise_for_status()
             file = BytesIO(response.content)
diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 0e6078d..f43d8d2 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -6,6 +6,10 @@ The module also provides a function for listing all filings for a given CIK and
 """
 
 from brel import Filing
+from brel.services.file.file_service import (
+    IDENTIFYING_HEADERS,
+    wait_before_sec_redirect,
+)
 import requests, json, os, datetime, tempfile, time
 
 SUPPORTED_FILING_TYPES = ["10-K", "10-Q", "8-K"]
@@ -28,7 +32,10 @@ def __download_metadata_for_cik(cik: str) -> bool:
     sec_data_uri = f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"
 
     response = session.get(
-        sec_data_uri, headers={"User-Agent": "Mozilla/5.0"}, timeout=10
+        sec_data_uri,
+        headers=IDENTIFYING_HEADERS,
+        timeout=10,
+        hooks={"response": wait_before_sec_redirect},
     )
     if response.status_code != 200:
         return False
@@ -164,14 +171,12 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
             uri = uri.replace(".htm", "_htm.xml")
+            time.sleep(0.1)
             ping = session.get(
                 uri,
-                headers={
-                    "User-Agent": "Robin Schmidiger rschmidiger64@gmail.com",
-                    "Accept-Encoding": "gzip",
-                    "Host": "www.sec.gov",
-                },
+                headers={**IDENTIFYING_HEADERS, "Accept-Encoding": "gzip"},
                 timeout=10,
+                hooks={"response": wait_before_sec_redirect},
             )
             if ping.status_code != 200:
                 raise ValueError(
-- 
2.43.0


From 1b492d1eef334fa5f0c2524fc858025c6cd931ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 23/54] fix: refuse CIKs that are not digits, accept filings
 without a report date

---
 brel/utils/edgar.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index f43d8d2..c51a701 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -114,9 +114,13 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
                 "Incorrect date format. The date has to be in the format YYYY-MM-DD"
             )
 
-    # check that the cik is a str that has at most 10 characters
-    if not isinstance(cik, str) or len(cik) > 10:
-        raise ValueError("The CIK has to be a string with at most 10 characters")
+    # check that the cik is a str that has at most 10 digits
+    if (
+        not isinstance(cik, str)
+        or len(cik) > 10
+        or not (cik.isascii() and cik.isdigit())
+    ):
+        raise ValueError("The CIK has to be a string with at most 10 digits")
 
     # Check if the filing type is supported
     if filing_type not in SUPPORTED_FILING_TYPES:
@@ -152,9 +156,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # dates in the format YYYY-MM-DD, or empty ones, are in the order of their texts
+        right_is.sort(key=lambda i: recent["reportDate"][i], reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From 0e9bf16f725797e6d549be876ced745caa444d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 24/54] fix: only accept answers with status 200 as the content
 of a remote file

---
 brel/services/file/file_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index bea06af..2c72061 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -11,7 +11,7 @@
 import time
 from io import BytesIO
 from typing import IO
-from requests import Response, Session
+from requests import HTTPError, Response, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -66,6 +66,9 @@ class FileService:
         )
         try:
             response.raise_for_status()
+            if response.status_code != 200:
+                # e.g. "no content" or "partial content" do not bring the whole file
+                raise HTTPError(f"{response.status_code} for url: {uri}")
             file = BytesIO(response.content)
             self.add_file(uri, file)
         except:
-- 
2.43.0


From 7ef15e0e51a278f11fa6cf3673a1b5d83a80fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 25/54] fix: do not cache answers that were cut off

---
 brel/services/file/file_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 2c72061..6dab023 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -11,6 +11,7 @@
 import time
 from io import BytesIO
 from typing import IO
+from lxml.etree import parse as parse_xml
 from requests import HTTPError, Response, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
@@ -70,6 +71,10 @@ class FileService:
                 # e.g. "no content" or "partial content" do not bring the whole file
                 raise HTTPError(f"{response.status_code} for url: {uri}")
             file = BytesIO(response.content)
+            # Where only the end of the connection ends the answer, nothing else tells that
+            # the answer is incomplete. It must not get into the cache.
+            parse_xml(file)
+            file.seek(0)
             self.add_file(uri, file)
         except:
             self.__error_repository.insert(
-- 
2.43.0


From f29f25760e5c84f41c5f2d6a8a644a26f46cee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 26/54] fix: tell dimensions and entities of different
 namespaces and schemes apart

The same prefix can stand for different namespaces in different files and the
same identifier for different entities in different schemes. Facts got the
dimension or the entity of whichever file was parsed first.
---
 brel/parsers/XML/characteristics/xml_parse_entity.py      | 8 +++++---
 .../XML/characteristics/xml_parse_explicit_dimension.py   | 5 ++++-
 .../XML/characteristics/xml_parse_typed_dimension.py      | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..f0cf01a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,9 +54,11 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # the same identifier means another entity in another scheme
+    entity_key = f"{entity_url} {entity_id}"
+    if characteristic_repository.has(entity_key, EntityCharacteristic):
+        return characteristic_repository.get(entity_key, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(entity_key, entity_characteristic)
         return entity_characteristic
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..9327fc8 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -83,7 +83,10 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    # the same prefix can mean another namespace in another file
+    dimension_id = (
+        f"{aspect_id} {dimension_qname.get_URL()} {member_qname.clark_notation()}"
+    )
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..49727d7 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -102,7 +102,8 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    # the same prefix can mean another namespace in another file
+    dimension_id = f"{dimension_axis} {dimension_qname.get_URL()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
-- 
2.43.0


From a17ee67bd558aee465f3f019fe0b82dfb487b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 27/54] fix: look up ids in the file that they belong to

Ids of units, facts and element declarations are unique within one file only.
With several instances or schemas, facts got the unit of another instance,
facts with the same id as one of another instance were dropped, and locators,
footnotes and typed domains were resolved to an element of another file.
---
 brel/data/fact/fact_repository.py             |  6 +--
 brel/data/fact/in_memory_fact_repository.py   | 16 +++++--
 .../in_memory_report_element_repository.py    | 12 ++++--
 .../report_element_repository.py              |  5 ++-
 brel/data/xml/xml_repository.py               | 11 +++++
 .../XML/networks/xml_extended_link_parser.py  | 14 +++++-
 brel/parsers/XML/xml_facts_parser.py          | 16 ++++---
 brel/parsers/XML/xml_report_element_parser.py | 12 ++++--
 brel/services/xml/xml_service.py              | 43 ++++++++++++++-----
 9 files changed, 102 insertions(+), 33 deletions(-)

diff --git a/brel/data/fact/fact_repository.py b/brel/data/fact/fact_repository.py
index f4e4158..9920a1e 100644
--- a/brel/data/fact/fact_repository.py
+++ b/brel/data/fact/fact_repository.py
@@ -15,7 +15,7 @@ from brel.brel_fact import Fact
 
 class FactRepository(ABC):
     @abstractmethod
-    def get_by_id(self, id: str) -> Fact:
+    def get_by_id(self, id: str, uri: Optional[str] = None) -> Fact:
         pass
 
     @abstractmethod
@@ -23,7 +23,7 @@ class FactRepository(ABC):
         pass
 
     @abstractmethod
-    def has_id(self, id: str) -> bool:
+    def has_id(self, id: str, uri: Optional[str] = None) -> bool:
         pass
 
     @abstractmethod
@@ -31,5 +31,5 @@ class FactRepository(ABC):
         pass
 
     @abstractmethod
-    def upsert(self, fact: Fact) -> None:
+    def upsert(self, fact: Fact, uri: Optional[str] = None) -> None:
         pass
diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index a299f08..db28342 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,9 +16,13 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
+        # ids are only unique within their file
+        self.__facts_by_uri_and_id: dict[tuple[Optional[str], str], Fact] = {}
         self.__facts_without_id: list[Fact] = []
 
-    def get_by_id(self, id: str) -> Fact:
+    def get_by_id(self, id: str, uri: Optional[str] = None) -> Fact:
+        if uri is not None:
+            return self.__facts_by_uri_and_id[(uri, id)]
         return self.__facts_by_id[id]
 
     def get_by_id_optional(self, id: str) -> Optional[Fact]:
@@ -27,19 +31,23 @@ class InMemoryFactRepository(FactRepository):
         except KeyError:
             return None
 
-    def has_id(self, id: str) -> bool:
+    def has_id(self, id: str, uri: Optional[str] = None) -> bool:
+        if uri is not None:
+            return (uri, id) in self.__facts_by_uri_and_id
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values()) + self.__facts_without_id
+        return list(self.__facts_by_uri_and_id.values()) + self.__facts_without_id
 
-    def upsert(self, fact: Fact) -> None:
+    def upsert(self, fact: Fact, uri: Optional[str] = None) -> None:
         """
         Set the fact by its ID.
         :param fact: The fact to set.
+        :param uri: The URI of the file that holds the fact, if the ID belongs to that file only.
         """
         fact_id = fact.get_id()
         if fact_id is None:
             self.__facts_without_id.append(fact)
         else:
             self.__facts_by_id[fact_id] = fact
+            self.__facts_by_uri_and_id[(uri, fact_id)] = fact
diff --git a/brel/data/report_element/in_memory_report_element_repository.py b/brel/data/report_element/in_memory_report_element_repository.py
index b303f4d..4772b39 100644
--- a/brel/data/report_element/in_memory_report_element_repository.py
+++ b/brel/data/report_element/in_memory_report_element_repository.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+from typing import Optional
 from brel.data.report_element.report_element_repository import ReportElementRepository
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
@@ -17,6 +18,10 @@ class InMemoryReportElementRepository(ReportElementRepository):
     def __init__(self) -> None:
         self.__elements_by_qname: dict[QName, IReportElement] = {}
         self.__elements_by_id: dict[str, IReportElement] = {}
+        # ids are only unique within their file
+        self.__elements_by_uri_and_id: dict[
+            tuple[Optional[str], str], IReportElement
+        ] = {}
 
     def has_qname(self, qname: QName) -> bool:
         return qname in self.__elements_by_qname
@@ -32,17 +37,18 @@ class InMemoryReportElementRepository(ReportElementRepository):
 
         return self.__elements_by_qname[qname]
 
-    def get_by_id(self, id: str) -> IReportElement:
+    def get_by_id(self, id: str, uri: Optional[str] = None) -> IReportElement:
         if not self.has_id(id):
             raise KeyError(f"Report element with ID {id} not found in repository.")
 
-        return self.__elements_by_id[id]
+        return self.__elements_by_uri_and_id.get((uri, id), self.__elements_by_id[id])
 
-    def upsert(self, report_element: IReportElement) -> None:
+    def upsert(self, report_element: IReportElement, uri: Optional[str] = None) -> None:
         self.__elements_by_qname[report_element.get_name()] = report_element
         report_element_id = report_element.get_id()
         if report_element_id is not None:
             self.__elements_by_id[report_element_id] = report_element
+            self.__elements_by_uri_and_id[(uri, report_element_id)] = report_element
 
     def get_all(self) -> list[IReportElement]:
         return list(self.__elements_by_qname.values())
diff --git a/brel/data/report_element/report_element_repository.py b/brel/data/report_element/report_element_repository.py
index 736fb87..b6b08eb 100644
--- a/brel/data/report_element/report_element_repository.py
+++ b/brel/data/report_element/report_element_repository.py
@@ -11,6 +11,7 @@
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
 from abc import ABC, abstractmethod
+from typing import Optional
 
 
 class ReportElementRepository(ABC):
@@ -27,11 +28,11 @@ class ReportElementRepository(ABC):
         pass
 
     @abstractmethod
-    def get_by_id(self, id: str) -> IReportElement:
+    def get_by_id(self, id: str, uri: Optional[str] = None) -> IReportElement:
         pass
 
     @abstractmethod
-    def upsert(self, report_element: IReportElement) -> None:
+    def upsert(self, report_element: IReportElement, uri: Optional[str] = None) -> None:
         pass
 
     @abstractmethod
diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..7f6b04c 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -19,6 +19,7 @@ from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
 class XMLRepository:
     def __init__(self) -> None:
         self.__xml_etree_cache: dict[str, lxml.etree._ElementTree] = {}
+        self.__uri_by_root: dict[lxml.etree._Element, str] = {}
         add_xpath_functions()
 
     def normalize_uri(self, uri: str) -> str:
@@ -36,5 +37,15 @@ class XMLRepository:
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
+    def get_all_etrees_by_uri(self) -> dict[str, lxml.etree._ElementTree]:
+        return dict(self.__xml_etree_cache)
+
+    def get_uri(self, element: lxml.etree._Element) -> str:
+        """
+        :returns str: the URI of the file that holds the element
+        """
+        return self.__uri_by_root[element.getroottree().getroot()]
+
     def add_etree(self, uri: str, etree: lxml.etree._ElementTree) -> None:
         self.__xml_etree_cache[self.normalize_uri(uri)] = etree
+        self.__uri_by_root[etree.getroot()] = self.normalize_uri(uri)
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 284a755..c63cd03 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -49,6 +49,7 @@ def get_object_from_reference(
     report_element_repository = filing_context.get_report_element_repository()
     fact_repository = filing_context.get_fact_repository()
     error_repository = filing_context.get_error_repository()
+    xml_service = filing_context.get_xml_service()
 
     referenced_element_type = get_str_attribute(referenced_element, "xlink:type")
 
@@ -59,8 +60,17 @@ def get_object_from_reference(
 
         elem_id = href.split("#")[-1]
 
-        if report_element_repository.has_id(elem_id):
-            locator_target_element = report_element_repository.get_by_id(elem_id)
+        # ids are only unique within their file
+        file_uri = xml_service.get_referenced_uri(
+            href.split("#")[0].strip() if "#" in href else "", referenced_element
+        )
+
+        if fact_repository.has_id(elem_id, file_uri):
+            locator_target_element = fact_repository.get_by_id(elem_id, file_uri)
+        elif report_element_repository.has_id(elem_id):
+            locator_target_element = report_element_repository.get_by_id(
+                elem_id, file_uri
+            )
         elif fact_repository.has_id(elem_id):
             locator_target_element = fact_repository.get_by_id(elem_id)
         else:
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..447a452 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -36,11 +36,13 @@ def parse_fact_from_xml(
     filingContext: FilingContext,
     fact_xml_element: lxml.etree._Element,  # type: ignore
     context: Context,
+    instance_uri: str,
 ) -> None:
     """
     Create a single Fact from an lxml.etree._Element.
     :param fact_xml_element: The lxml.etree._Element to create the Fact from.
     :param context: The context of the fact. Note that new characteristics will be added to the context.
+    :param instance_uri: The URI of the instance that holds the fact.
     :returns: The newly Fact.
     """
     error_repository = filingContext.get_error_repository()
@@ -80,7 +82,7 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    fact_repository.upsert(Fact(context, fact_value, fact_id), instance_uri)
 
 
 def parse_facts_xml(
@@ -96,7 +98,7 @@ def parse_facts_xml(
 
     xml_service = context.get_xml_service()
 
-    for xbrl_instance in xml_service.get_all_etrees():
+    for instance_uri, xbrl_instance in xml_service.get_all_etrees_by_uri().items():
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -140,15 +142,17 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                # ids are only unique within their file
+                unit_key = f"{instance_uri}#{unit_id}"
+                if not characteristics_repository.has(unit_key, UnitCharacteristic):
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
+                    characteristics_repository.upsert(unit_key, new_unit)
 
                 unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
+                    unit_key, UnitCharacteristic
                 )
 
                 fact_characteristics.append(
@@ -175,4 +179,4 @@ def parse_facts_xml(
             if not fact_context:
                 continue
 
-            parse_fact_from_xml(context, xml_fact, fact_context)
+            parse_fact_from_xml(context, xml_fact, fact_context, instance_uri)
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..7ddbe1e 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -41,7 +41,7 @@ def parse_report_elements_xml(
     xml_service = context.get_xml_service()
     report_element_repository = context.get_report_element_repository()
 
-    for etree in xml_service.get_all_etrees():
+    for uri, etree in xml_service.get_all_etrees_by_uri().items():
         if not has_str_attribute(etree.getroot(), "targetNamespace"):
             continue
 
@@ -57,6 +57,7 @@ def parse_report_elements_xml(
                 report_element_repository=report_element_repository,
                 xml_service=xml_service,
                 current_etree=etree,
+                current_uri=uri,
                 report_element_xml=re_xml,
                 target_namespace_url=target_namespace_url,
                 error_repository=error_repository,
@@ -67,6 +68,7 @@ def parse_report_element(
     report_element_repository: ReportElementRepository,
     xml_service: XMLService,
     current_etree: lxml.etree._ElementTree,  # type: ignore
+    current_uri: str,
     report_element_xml: lxml.etree._Element,  # type: ignore
     target_namespace_url: str,
     error_repository: ErrorRepository,
@@ -79,7 +81,7 @@ def parse_report_element(
         report_element_xml, qname, [], error_repository
     )
     if report_element and not report_element_repository.has_qname(qname):
-        report_element_repository.upsert(report_element)
+        report_element_repository.upsert(report_element, current_uri)
 
         if isinstance(report_element, Dimension):
             typed_domain_ref = qname_from_str(
@@ -91,7 +93,11 @@ def parse_report_element(
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
                 ref_schema_name, ref_id = ref_full.split("#")
                 refschema = (
-                    xml_service.get_etree(ref_schema_name)
+                    xml_service.get_etree(
+                        xml_service.get_referenced_uri(
+                            ref_schema_name, report_element_xml
+                        )
+                    )
                     if ref_schema_name and ref_schema_name != "."
                     else current_etree
                 )
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 6a8203c..1cfb7d0 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -12,7 +12,7 @@ import os
 from io import BytesIO
 from typing import Dict, List, Optional
 import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
+from lxml.etree import _Element, _ElementTree  # type: ignore
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -36,15 +36,7 @@ class XMLService:
         self.__parser_resolver = parser_resolver
         self.__available_filing_languages: Optional[List[str]] = None
 
-    def add_etree_recursive(self, uri: str, referencing_uri: str = ".") -> None:
-        """
-        Recursively adds an XML file to the repository. the uri can be a local file path or a remote URL.
-        If the file is remote, it will be downloaded and added to the repository.
-        The method recursively adds all referenced files to the repository.
-        :param uri: The URI of the XML file to add.
-        :param referencing_uri: The URI of the file that references this XML file.
-        the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
-        """
+    def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
         is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
         if not is_uri_remote:
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
@@ -62,6 +54,20 @@ class XMLService:
         if not is_uri_remote:
             uri = os.path.normpath(uri)
 
+        return uri
+
+    def add_etree_recursive(self, uri: str, referencing_uri: str = ".") -> None:
+        """
+        Recursively adds an XML file to the repository. the uri can be a local file path or a remote URL.
+        If the file is remote, it will be downloaded and added to the repository.
+        The method recursively adds all referenced files to the repository.
+        :param uri: The URI of the XML file to add.
+        :param referencing_uri: The URI of the file that references this XML file.
+        the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
+        """
+        uri = self.__resolve_uri(uri, referencing_uri)
+        is_uri_remote = uri.startswith("http")
+
         if self.__xml_repository.has_etree(uri):
             return
 
@@ -83,6 +89,20 @@ class XMLService:
         for reference_uri in self.__extract_references(etree):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def get_referenced_uri(self, reference: str, element: _Element) -> str:
+        """
+        :param reference: a reference to a file, without the id of an element in it. It is empty for the file itself.
+        :param element: an element of the file that holds the reference
+        :returns str: the URI of the referenced file
+        """
+        referencing_uri = self.__xml_repository.get_uri(element)
+        if not reference:
+            return referencing_uri
+
+        return self.__xml_repository.normalize_uri(
+            self.__resolve_uri(reference, referencing_uri)
+        )
+
     def __extract_references(self, etree: _ElementTree) -> dict[str, None]:
         # in the order of the document, so that every open loads the files in the same order
         reference_uris: dict[str, None] = {}
@@ -102,6 +122,9 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def get_all_etrees_by_uri(self) -> dict[str, _ElementTree]:
+        return self.__xml_repository.get_all_etrees_by_uri()
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From e4ce016beccc929e6fcedcbd03335c4c965f3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 28/54] fix: list a role that several schemas declare as one
 component

---
 brel/parsers/XML/xml_component_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..056a175 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -128,6 +128,7 @@ def parse_components_xml(
 ) -> None:
     xml_service = context.get_xml_service()
     component_repository: ComponentRepository = context.get_component_repository()
+    role_uris: set[str] = set()
 
     for schema in xml_service.get_all_etrees():
         for roletype in find_elements(
@@ -135,4 +136,10 @@ def parse_components_xml(
             ".//link:roleType",
             namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
         ):
+            # several schemas may declare the same role
+            role_uri = get_str_attribute(roletype, "roleURI")
+            if role_uri in role_uris:
+                continue
+
+            role_uris.add(role_uri)
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From 8b811c60c36cc58308dea552673157c4adf536f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 29/54] fix: read the dimensions in the scenario of a context

---
 brel/parsers/XML/xml_context_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..19f2922 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,15 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
+    # add the dimensions. the dimensions are the children of context/entity/segment or context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
+    scenario = xml_element.find("{*}scenario", namespaces=None)
 
-    if segment is not None:
-        for xml_dimension in segment:
+    for dimensions_parent in (segment, scenario):
+        if dimensions_parent is None:
+            continue
+
+        for xml_dimension in dimensions_parent:
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 517811e68bbc105094dbcec11ff6857bfd73b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 30/54] fix: skip comments and processing instructions between
 elements

Code that walks over child elements took comments and processing instructions
for elements, and an open failed or lost facts and relationships.
---
 brel/services/factory.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..d9f17b8 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-from lxml.etree import parse as parse_xml
+from lxml.etree import XMLParser, parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -50,7 +50,12 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
+    # comments and processing instructions may stand anywhere and have no meaning
     return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
+        lambda content: parse_xml(content, __create_xml_parser()),
+        lambda content: parse_xml(content, __create_xml_parser()),
     )
+
+
+def __create_xml_parser() -> XMLParser:
+    return XMLParser(remove_comments=True, remove_pis=True)
-- 
2.43.0


From 5a8060818ecd5ac3326416eecc3b1afcf394e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 31/54] fix: open zip archives

The loader returned the names of the members without extracting them, so that
an open read files of these names relative to the working directory, or failed.
---
 brel/brel_filing.py                           |  8 ++++++
 brel/parsers/path_loaders/path_loader.py      |  5 ++++
 .../path_loaders/path_loader_resolver.py      |  4 +++
 brel/parsers/path_loaders/zip_path_loader.py  | 25 ++++++++++++++++---
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 92243b6..0c3acbb 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -58,6 +58,7 @@ from brel.errors.severity import Severity
 from brel.networks import INetwork
 from brel.parsers.filing_parser_factory import FilingParserFactory
 from brel.parsers.path_loaders.factory import create_path_loader_resolver
+from brel.parsers.path_loaders.path_loader_resolver import PathLoaderResolver
 from brel.parsers.utils.iterable_utils import exactly_one
 from brel.qnames.qname_search_params import QNameSearchParams
 from brel.reportelements import (
@@ -82,6 +83,13 @@ class Filing:
     @classmethod
     def open(cls, path: str) -> "Filing":
         path_loader_resolver = create_path_loader_resolver()
+        try:
+            return cls.__open(path, path_loader_resolver)
+        finally:
+            path_loader_resolver.close()
+
+    @classmethod
+    def __open(cls, path: str, path_loader_resolver: PathLoaderResolver) -> "Filing":
         file_paths: list[str] = []
         try:
             path_loader = path_loader_resolver.get_path_loader(path)
diff --git a/brel/parsers/path_loaders/path_loader.py b/brel/parsers/path_loaders/path_loader.py
index bbae554..b1a854f 100644
--- a/brel/parsers/path_loaders/path_loader.py
+++ b/brel/parsers/path_loaders/path_loader.py
@@ -28,3 +28,8 @@ class PathLoader(ABC):
         :return: A list of paths.
         """
         pass
+
+    def close(self) -> None:
+        """
+        Releases what load needed, once the loaded files are not needed any more.
+        """
diff --git a/brel/parsers/path_loaders/path_loader_resolver.py b/brel/parsers/path_loaders/path_loader_resolver.py
index 815f1b4..27df2b1 100644
--- a/brel/parsers/path_loaders/path_loader_resolver.py
+++ b/brel/parsers/path_loaders/path_loader_resolver.py
@@ -21,3 +21,7 @@ class PathLoaderResolver:
                 return loader
 
         raise ValueError(f"No suitable loader found for path: {path}")
+
+    def close(self) -> None:
+        for loader in self.loaders:
+            loader.close()
diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..77ee3ec 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,17 +8,34 @@
 ====================
 """
 
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
 class ZipPathLoader(PathLoader):
+    def __init__(self) -> None:
+        self.__extracted: list[tempfile.TemporaryDirectory] = []
+
     def is_loader_for(self, path: str) -> bool:
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        """
+        Extracts a zip file to a temporary folder, which is removed by close().
 
+        :param path: The path of the zip file.
+        :returns: A list of the paths of the extracted files.
+        """
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            folder = tempfile.TemporaryDirectory(prefix="brel_")
+            self.__extracted.append(folder)
+            zip_ref.extractall(folder.name)
+
+        return FolderPathLoader().load(folder.name)
+
+    def close(self) -> None:
+        while self.__extracted:
+            self.__extracted.pop().cleanup()
-- 
2.43.0


From 6b5f4cdf125679a2f142265d02f519baa4d01bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 32/54] fix: give the networks of links with the same role the
 right roots

The links were not sorted as intended, and roots were searched among the nodes
of one link only. A relationship whose source is declared in another link, or
through another locator, hung below an additional root instead of its place.
---
 brel/parsers/utils/network_utils.py | 99 ++++++++---------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..4de1b10 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,31 +1,16 @@
 from brel.networks import INetwork, INetworkNode
 
 # from brel.utils import pprint
-from functools import cmp_to_key
 
 
-def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
-    # checks if two nodes have the same type and point to the same thing
-    if not isinstance(other, INetworkNode):
-        return False
-
-    # two nodes are equal if they
-    # 1. have the same type
-    # 2. point to the same thing
-    if type(self) != type(other):
-        return False
-
-    if self.points_to() != other.points_to():
-        return False
-
-    if self.points_to() == "resource":
-        return self.get_resource() == other.get_resource()
-    elif self.points_to() == "report element":
-        return self.get_report_element() == other.get_report_element()
-    elif self.points_to() == "fact":
-        return self.get_fact() == other.get_fact()
+def node_target(node: INetworkNode) -> object:
+    # two nodes have the same target if they have the same type and point to the same thing
+    if node.points_to() == "resource":
+        return type(node), id(node.get_resource())
+    elif node.points_to() == "fact":
+        return type(node), id(node.get_fact())
     else:
-        return False
+        return type(node), node.get_report_element().get_name().clark_notation()
 
 
 def combine_networks(networks: list[INetwork]) -> INetwork:
@@ -38,59 +23,31 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     if len(networks) == 0:
         raise ValueError("No networks provided.")
 
-    # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
-
-    if len(networks) == 1:
-        return networks[0]
-
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
-        )
+    # Links of the same role form one network. A root of one of them can be a node anywhere in another one.
+    # In that case its children belong to that node, otherwise it is a root of the combined network.
+    agg_network = networks[0]
+    agg_roots = {root: None for network in networks for root in network.get_roots()}
 
-        if result:
-            return -1
-        else:
-            return 1
+    nodes_by_target: dict[object, dict[INetworkNode, None]] = {}
+    for root in agg_roots:
+        for node in root.get_all_descendants():
+            nodes_by_target.setdefault(node_target(node), {})[node] = None
 
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
+    for root in list(agg_roots):
+        twins = nodes_by_target[node_target(root)]
+        if len(twins) == 1:
+            continue
 
-    # Step 2. Make an aggregate network.
-    # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
-    agg_roots = agg_network.get_roots()
+        own_nodes = set(root.get_all_descendants())
+        twin = next((node for node in twins if node not in own_nodes), None)
+        if twin is None:
+            continue
 
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
+        for child in root.get_children():
+            twin._add_child(child)
 
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
-        for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
+        del twins[root]
+        del agg_roots[root]
 
+    agg_network.get_roots()[:] = agg_roots
     return agg_network
-- 
2.43.0


From a98f3981159f47cfdb061f176645f0422266c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 33/54] fix: replace only the extension of a primary document

A name with .htm in the middle was changed there as well, and the filing was
not found.
---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index c51a701..58798f3 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -173,7 +173,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri[: -len(".htm")] + "_htm.xml"
             time.sleep(0.1)
             ping = session.get(
                 uri,
-- 
2.43.0


From 4316ac43ab60390d9638c3a0510c6b85b1b1f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 34/54] fix: end the walk over the nodes of a cyclic network

get_all_descendants never ended for a node on a cycle, which made an open hang
when links with a common role had to be combined.
---
 brel/networks/i_network.py      | 3 +++
 brel/networks/i_network_node.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index c1f2fea..abe372b 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -125,6 +125,9 @@ class INetwork(ABC):
 
         # recursive function to add all children of a node to the nodes set
         def add_children(node: INetworkNode) -> None:
+            if node in nodes:
+                return
+
             nodes[node] = None
             for child in node.get_children():
                 add_children(child)
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index 19af0a9..3452ebb 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -130,6 +130,9 @@ class INetworkNode(ABC):
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
+            if node in descendants:
+                continue
+
             descendants[node] = None
             worklist.extend(node.get_children())
 
-- 
2.43.0


From 6830817745cfbf6066405ee2e8145a5710908a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 35/54] fix: keep the order of definition arcs exact

Orders were rounded in logical definition networks, so that children with
orders such as 1.2 and 1.1 were not in their order. Without the attribute
the order is 1, as for the other networks.
---
 .../XML/networks/xml_definition_network_factory.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..bb82c39 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -136,15 +136,15 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From d82b95337c8c6ce238fbcf2060d6e1f1cb98f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 36/54] fix: make incomplete dates independent of the current
 day

The parts that a date like 2023-11 lacks were those of the day on which the
filing was opened, so that the same filing had another period every day.
---
 brel/characteristics/period_characteristic.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..f0e992b 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -114,6 +114,17 @@ class PeriodCharacteristic(ICharacteristic):
             return str(self) == str(__value)
 
     # Internal methods
+    @staticmethod
+    def _parse_date(date: str) -> datetime.date:
+        """
+        Parses a date. The parts that are missing are those of the first day.
+        :param date: the string to parse
+        :returns datetime.date: the date
+        :raises ValueError: if the string is not a valid date.
+        """
+        # without a default the missing parts are those of the current day
+        return dateutil.parser.parse(date, default=datetime.datetime(1, 1, 1)).date()
+
     @staticmethod
     def _is_date(date: Optional[str]) -> bool:
         """
@@ -125,7 +136,7 @@ class PeriodCharacteristic(ICharacteristic):
             return False
 
         try:
-            dateutil.parser.parse(date)
+            PeriodCharacteristic._parse_date(date)
             return True
         except ValueError:
             return False
@@ -142,7 +153,7 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"Instant date '{instant_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
+        period_instance.__instant_date = cls._parse_date(instant_date)
         period_instance.__is_instant = True
 
         return period_instance
@@ -163,8 +174,8 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"End date '{end_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__start_date = dateutil.parser.parse(start_date).date()
-        period_instance.__end_date = dateutil.parser.parse(end_date).date()
+        period_instance.__start_date = cls._parse_date(start_date)
+        period_instance.__end_date = cls._parse_date(end_date)
         period_instance.__is_instant = False
 
         # if period_instance.start_date > period_instance.end_date:
-- 
2.43.0


From 07b248b5d44788b98793ede6d3f7784c3a47383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 37/54] fix: keep the content of footnotes with markup

The content of a footnote that starts with an element was the description of
an object in memory, which is different on every open. Text after the first
element was lost.
---
 brel/parsers/XML/networks/xml_resource_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..854ac47 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -52,7 +52,7 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        text = "".join(xml_element.itertext())
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
-- 
2.43.0


From 418c30315b4cc9adbcd1439caae3b3e8a58e49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 38/54] fix: keep the whole text of labels with markup

Labels may hold XHTML. Only the text up to its first element was kept.
---
 brel/parsers/XML/networks/xml_resource_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 854ac47..9c163c6 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -41,7 +41,7 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        text = "".join(xml_element.itertext())
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
-- 
2.43.0


From 49684beaf6436aefce07f8407b32c1265f331957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 39/54] fix: open filings with resources without a role

The role is optional, and the standard role applies where it is missing.
---
 brel/parsers/XML/networks/xml_resource_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 9c163c6..729120b 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -22,6 +22,10 @@ from brel.parsers.utils.lxml_utils import (
 )
 
 
+# a resource without a role has the standard role
+STANDARD_ROLE = "http://www.xbrl.org/2003/role/"
+
+
 def parse_xml_resource(
     xml_element: _Element, filing_context: FilingContext
 ) -> Optional[IResource]:
@@ -31,7 +35,6 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
 
     if "label" in tag:
@@ -42,6 +45,7 @@ def parse_xml_resource(
             return None
 
         text = "".join(xml_element.itertext())
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLE + "label")
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -53,11 +57,15 @@ def parse_xml_resource(
             return None
 
         text = "".join(xml_element.itertext())
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLE + "footnote")
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
             re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
         }
+        role = get_str_attribute(
+            xml_element, "xlink:role", STANDARD_ROLE + "reference"
+        )
         return BrelReference(content, label, role)
     else:
         error_repository.insert(
-- 
2.43.0


From 4bffdc52f0499f8a73f7f35a0c5d8210c0342e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 40/54] fix: keep the decimals and the precision of facts

Facts of XML instances had neither, other than those of inline filings.
---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 447a452..43539e9 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -19,6 +19,7 @@ from brel import Context, Fact
 from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
+from brel.parsers.XHMTL.elements.parse_non_fraction import parse_decimals_or_precision
 from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
@@ -82,7 +83,31 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id), instance_uri)
+    decimals: float | None = None
+    try:
+        decimals = parse_decimals_or_precision(fact_xml_element.get("decimals"), True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=fact_xml_element.get("decimals"),
+        )
+
+    precision: float | None = None
+    try:
+        precision = parse_decimals_or_precision(
+            fact_xml_element.get("precision"), False
+        )
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=fact_xml_element.get("precision"),
+        )
+
+    fact_repository.upsert(
+        Fact(context, fact_value, fact_id, decimals, precision), instance_uri
+    )
 
 
 def parse_facts_xml(
-- 
2.43.0


From 742c683614a15b98ec4ca0ee68de264280d3730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 41/54] fix: keep all measures of divided units

Only the first measure of the numerator and of the denominator was kept.
---
 .../XML/characteristics/xml_parse_unit.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..1cd847d 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -107,16 +107,18 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
+                for measure_child in num_or_denom:
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
 
-                if not child_qname:
-                    return None
+                    if not child_qname:
+                        return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
             if num_and_denom[0].tag == num_and_denom[1].tag:
                 error_repository.insert(
-- 
2.43.0


From 042fe5ef5ba38f80d1b48175a1660043cf4cc382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 42/54] fix: ignore white space around names and identifiers

Measures, dimensions and members with white space around them had a wrong
name or were not found, and identifiers were taken for different ones.
---
 brel/parsers/XML/characteristics/xml_parse_entity.py           | 3 +++
 .../XML/characteristics/xml_parse_explicit_dimension.py        | 2 +-
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py  | 2 +-
 brel/qnames/qname_utils.py                                     | 2 ++
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index f0cf01a..b1a5ac6 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,6 +54,9 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
+    # white space around the identifier has no meaning
+    entity_id = entity_id.strip()
+
     # the same identifier means another entity in another scheme
     entity_key = f"{entity_url} {entity_id}"
     if characteristic_repository.has(entity_key, EntityCharacteristic):
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index 9327fc8..5db0693 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -47,7 +47,7 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension")
+    aspect_id = get_str_attribute(xml_element, "dimension").strip()
     if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
         aspect_repository.upsert(Aspect(aspect_id, []))
 
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 49727d7..a1007c9 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -58,7 +58,7 @@ def parse_typed_dimension_from_xml(
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
 
-    dimension_axis = get_str_attribute(xml_element, "dimension")
+    dimension_axis = get_str_attribute(xml_element, "dimension").strip()
 
     if not aspect_repository.has(dimension_axis):
         aspect_repository.upsert(Aspect(dimension_axis, []))
diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 27a2ede..c3b4b97 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -24,6 +24,8 @@ def qname_from_str(
     the conversion, it will be returned.
     :returns: The QName object.
     """
+    # white space around a name in a document has no meaning
+    qname_str = qname_str.strip()
     if is_clark_notation(qname_str):
         return qname_from_clark_notation(qname_str, referencing_element)
     elif is_namespace_localname_notation(qname_str):
-- 
2.43.0


From e6a6d61c9c00ea8ac7a154d9fb8b3ab8985e26d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 43/54] fix: read documents with other prefixes for the
 standard namespaces

Names such as xlink:role and link:definition were resolved with the prefixes
of the document. Networks, components and inline facts were lost, or the
filing could not be opened, where a document uses other prefixes or a default
namespace.
---
 .../XML/networks/xml_networks_parser.py       |  4 +-
 brel/parsers/XML/xml_report_element_parser.py |  5 +-
 brel/parsers/utils/lxml_utils.py              | 61 +++++++++++++------
 3 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..816dff8 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -83,7 +83,7 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
@@ -91,7 +91,7 @@ def parse_networks_from_xmls(
     # First pass: parse networks
     for link_xml in link_xmls:
         link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
+            link_xml, "xlink:role"
         )
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 7ddbe1e..e89fc67 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -84,9 +84,8 @@ def parse_report_element(
         report_element_repository.upsert(report_element, current_uri)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
+            typed_domain_ref = to_namespace_localname_notation(
+                "xbrldt", "typedDomainRef"
             )
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..536690d 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -18,9 +18,42 @@ from brel.qnames.qname_utils import (
     is_clark_notation,
     is_namespace_localname_notation,
     qname_from_str,
+    to_clark_notation,
 )
 
 
+# The prefixes that brel uses for the namespaces of the standards. Documents may use others.
+STANDARD_NAMESPACES: Dict[str, str] = {
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrldt": "http://xbrl.org/2005/xbrldt",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+}
+STANDARD_PREFIXES = {url: prefix for prefix, url in STANDARD_NAMESPACES.items()}
+
+
+def get_attribute_name(element: _Element, attribute: str | QName) -> str:
+    """
+    Helper function for getting the name of an attribute in the notation of lxml.
+    :param element: lxml.etree.Element that the attribute belongs to
+    :param attribute: str or QName containing the name of the attribute
+    :returns: str containing the name of the attribute, in Clark Notation if it has a namespace
+    """
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+
+    if is_namespace_localname_notation(attribute):
+        prefix, local_name = attribute.split(":")
+        if prefix in STANDARD_NAMESPACES:
+            return to_clark_notation(STANDARD_NAMESPACES[prefix], local_name)
+
+        return qname_from_str(attribute, element).clark_notation()
+
+    return attribute
+
+
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
     Helper function for checking if an element has a string attribute.
@@ -28,11 +61,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
+    attribute = get_attribute_name(element, attribute)
     return attribute in element.attrib
 
 
@@ -48,11 +77,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
+    attribute = get_attribute_name(element, attribute)
     value = element.get(attribute)
     if value is None:
         if default is not None:
@@ -70,11 +95,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
+    attribute = get_attribute_name(element, attribute)
     return element.attrib.get(attribute)
 
 
@@ -94,7 +115,11 @@ def get_prefix_localname_tag(element: _Element) -> str:
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    qname = qname_from_str(element.tag, element)
+    if qname.get_URL() in STANDARD_PREFIXES:
+        return f"{STANDARD_PREFIXES[qname.get_URL()]}:{qname.get_local_name()}"
+
+    return qname.prefix_local_name_notation()
 
 
 def find_elements(
@@ -110,6 +135,7 @@ def find_elements(
 
     if not namespaces:
         namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces.update(STANDARD_NAMESPACES)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -129,7 +155,8 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap: Dict[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap.update(STANDARD_NAMESPACES)
     return element.find(xpath_query, namespaces=nsmap)
 
 
-- 
2.43.0


From a0629da36ce9921a33dcb15586ec094754765f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 44/54] fix: accept usedOn elements with any prefix

---
 brel/parsers/XML/xml_component_parser.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 056a175..339db15 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,15 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import (
+    STANDARD_NAMESPACES,
+    find_element,
+    find_elements,
+    get_str_attribute,
+)
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
+
+LINK_NAMESPACE = STANDARD_NAMESPACES["link"]
 
 
 def parse_component_from_xml(
@@ -43,10 +51,13 @@ def parse_component_from_xml(
     info_element = find_element(xml_element, "link:definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str(used_on.text or "", used_on).clark_notation()
+        for used_on in find_elements(xml_element, "link:usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "presentationLink") not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +66,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "calculationLink") not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +75,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "definitionLink") not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
-- 
2.43.0


From 54ea35584bd50bd78cf5d7af8c2a257d3c6b7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 45/54] fix: keep order, weight and label role of every arc to
 an element

An element that several arcs of a link lead to had one node, with the order,
weight and preferred label of the first of them.
---
 .../XML/networks/xml_extended_link_parser.py  | 67 ++++++++++---------
 brel/parsers/utils/network_utils.py           | 18 ++---
 2 files changed, 45 insertions(+), 40 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index c63cd03..b9a1305 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -127,7 +127,9 @@ def parse_xml_link(
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
         # dicts are used as ordered sets: the result must not depend on hash values
-        edges: dict[tuple[str, str, str], None] = {}
+        edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
+        # an element that several arcs lead to has a node for each of them, with its order, weight and label role
+        arc_to_nodes: dict[lxml.etree._Element, list[INetworkNode]] = defaultdict(list)  # type: ignore
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
         roots: dict[INetworkNode, None] = {}
 
@@ -145,9 +147,10 @@ def parse_xml_link(
                 )
                 continue
 
-            edges[(arc_from, arc_to, arc_role)] = None
+            edges[(arc_from, arc_to, arc_role)] = arc_element
             node_to_arcs[arc_from].append(arc_element)
-            node_to_arcs[arc_to].append(arc_element)
+            if arc_to != arc_from:
+                node_to_arcs[arc_to].append(arc_element)
 
         for link_element in find_elements(
             xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
@@ -198,21 +201,17 @@ def parse_xml_link(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
                     )
 
-                    for role_type in incoming_role_types | outgoing_role_types:
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
+                    arcs = arcs_to + [
+                        next(
+                            arc
+                            for arc in arcs_from
+                            if get_str_attribute(arc, "xlink:arcrole") == role_type
                         )
+                        for role_type in outgoing_role_types
+                        if role_type not in incoming_role_types
+                    ]
 
+                    for arc in arcs:
                         node = network_factory.create_node(
                             xml_link_element,
                             link_element,
@@ -224,7 +223,9 @@ def parse_xml_link(
                         if node is None:
                             continue
 
-                        if role_type not in incoming_role_types:
+                        if arc in arcs_to:
+                            arc_to_nodes[arc].append(node)
+                        else:
                             roots[node] = None
                         nodes_lookup[label].append(node)
 
@@ -244,31 +245,33 @@ def parse_xml_link(
                     roots[node] = None
                     nodes_lookup[label].append(node)
                 else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
+                    for arc in arcs_to or arcs_from[:1]:
+                        node = network_factory.create_node(
+                            xml_link_element,
+                            link_element,
+                            arc,
+                            to_object,
+                            error_repository,
+                        )
 
-                    if node is None:
-                        continue
+                        if node is None:
+                            continue
 
-                    if len(arcs_to) == 0:
-                        roots[node] = None
-                    nodes_lookup[label].append(node)
+                        if len(arcs_to) == 0:
+                            roots[node] = None
+                        else:
+                            arc_to_nodes[arc].append(node)
+                        nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
+        for (arc_from, _, arc_role), arc_element in edges.items():
             from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+            to_nodes = arc_to_nodes[arc_element]
 
             if network_factory.is_physical():
                 from_nodes = list(
                     filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
                 )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
 
             for from_node, to_node in itertools.product(from_nodes, to_nodes):
                 # Now we can link the nodes
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index 4de1b10..4a840cf 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -24,7 +24,7 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
         raise ValueError("No networks provided.")
 
     # Links of the same role form one network. A root of one of them can be a node anywhere in another one.
-    # In that case its children belong to that node, otherwise it is a root of the combined network.
+    # In that case its children belong to that node (or to each of these nodes), otherwise it is a root of the combined network.
     agg_network = networks[0]
     agg_roots = {root: None for network in networks for root in network.get_roots()}
 
@@ -34,19 +34,21 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
             nodes_by_target.setdefault(node_target(node), {})[node] = None
 
     for root in list(agg_roots):
-        twins = nodes_by_target[node_target(root)]
-        if len(twins) == 1:
+        nodes = nodes_by_target[node_target(root)]
+        if len(nodes) == 1:
             continue
 
         own_nodes = set(root.get_all_descendants())
-        twin = next((node for node in twins if node not in own_nodes), None)
-        if twin is None:
+        twins = [node for node in nodes if node not in own_nodes]
+        if not twins:
             continue
 
-        for child in root.get_children():
-            twin._add_child(child)
+        inner_twins = [node for node in twins if node not in agg_roots]
+        for twin in inner_twins or twins[:1]:
+            for child in root.get_children():
+                twin._add_child(child)
 
-        del twins[root]
+        del nodes[root]
         del agg_roots[root]
 
     agg_network.get_roots()[:] = agg_roots
-- 
2.43.0


From 678c772c0617701112cb1213a9f44fde7eaf3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 46/54] fix: find inline transformations whatever their prefix

The formats were recognised by the prefix ixt only, and the legacy names of
ixt:fixed-zero were not applied to numbers.
---
 .../XHMTL/elements/parse_non_fraction.py      |  3 ++-
 .../XHMTL/elements/parse_non_numeric.py       |  3 ++-
 .../xhtml_parse_transformation_registry.py    | 25 +++++++++++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..77089a1 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -5,6 +5,7 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
+    get_transformation_format,
     parse_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import (
@@ -84,7 +85,7 @@ def validate_descendant_non_fraction_rules(
 def process_non_fraction_value(
     fact_element: _Element, error_repository: ErrorRepository
 ) -> str:
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format(fact_element)
     scale = get_str_attribute_optional(fact_element, "scale")
     sign = get_str_attribute_optional(fact_element, "sign")
 
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..f280ebb 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -12,6 +12,7 @@ from brel.parsers.XHMTL.elements.parse_continuation_chain import (
     extract_relevant_content_from_continuation_chain,
 )
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
+    get_transformation_format,
     parse_non_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import get_str_attribute_optional
@@ -110,7 +111,7 @@ def parse_non_numeric_fact_element(
     else:
         fact_value = extract_text_content(relevant_content)
 
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format(fact_element)
     parsed_value = parse_non_numerical_fact_value(
         fact_value, format, fact_element, error_repository
     )
diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d931c01..5fcd4a5 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1000,6 +1000,27 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     return fact_value
 
 
+def get_transformation_format(element: _Element) -> Optional[str]:
+    """
+    Returns the transformation format of an inline element. The prefix of a format of the transformation
+    registry is "ixt" in the result, whatever prefix the document uses for the namespace of the registry.
+    :param element: The inline element.
+    :return: The format, or None if the element has none.
+    """
+    fact_format = element.get("format")
+    if fact_format is None:
+        return None
+
+    prefix, _, name = fact_format.strip().rpartition(":")
+    namespace = element.nsmap.get(prefix or None) or ""
+    if namespace.startswith("http://www.xbrl.org/") and (
+        "inlineXBRL/transformation" in namespace
+    ):
+        return f"ixt:{name}"
+
+    return fact_format.strip()
+
+
 def parse_numerical_fact_value(
     fact_value: str,
     fact_format: str,
@@ -1019,11 +1040,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From f463d3aeeca1d51af63f96ffc2208f6c23ed7226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 47/54] fix: give nested inline numbers their value

The value of a nonFraction that contains another one was the XML of the inner
element, or lost when there was white space around it.
---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 77089a1..830fff2 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -14,7 +14,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from lxml.etree import _Element
-from lxml import etree
 from brel.contexts.filing_context import FilingContext
 
 
@@ -96,10 +95,8 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
-    if not fact_value:
-        fact_value = ""
+    # the text of a nested element is that of its outermost element, too
+    fact_value = "".join(fact_element.itertext())
 
     if not format:
         value = None
@@ -196,8 +193,10 @@ def parse_non_fraction_fact_element(
     element_text = fact_element.text
     element_children = [child for child in fact_element]
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    texts = [element_text] + [child.tail for child in element_children]
+    # white space around a child is no text
+    has_text = any(text.strip() if has_children else text for text in texts if text)
 
     if has_text and has_children:
         error_repository.insert(
@@ -237,7 +236,6 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+        fact_value = process_non_fraction_value(fact_element, error_repository)
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From 401c1ea20c4ff65ed3080237686e04c3627613b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 48/54] fix: escape the markup of inline texts once

The text in and after the elements of an escaped inline text was escaped twice.
---
 brel/parsers/XHMTL/elements/parse_non_numeric.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index f280ebb..df96bd3 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -33,22 +33,10 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    # tostring escapes the text in and after the children
+    text_nodes.append(convert_escaped_characters(content.text) if content.text else "")
 
     for child in content:
         child_str = etree.tostring(child).decode()
-- 
2.43.0


From 929158428173c62f37d6db7875893ad8d742b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 49/54] fix: open inline filings with relationships between
 facts

The truth value of the target fact was tested instead of its presence, which
raises an exception. And a footnote of several relationships had the order of
the first of them in all of them.
---
 .../networks/xhtml_parse_footnote_network.py  | 79 ++++++++++---------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 43f3ec2..7546e74 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -261,57 +261,60 @@ def create_footnote_network_nodes(
 
     root_ids = [id for id in all_ids if id not in internal_ids]
 
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
+    # a fact or footnote that several arcs lead to has a node with the order of the arc for each of them
+    id_to_nodes: Dict[str, List[FootnoteNetworkNode]] = defaultdict(list)
+    arc_nodes: List[List[FootnoteNetworkNode]] = []
 
     for from_ids, to_ids, arcrole, linkrole, order in arcs:
         for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
+            if from_id not in id_to_nodes and from_id in root_ids:
                 from_object = fact_repository.get_by_id(from_id)
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
+                id_to_nodes[from_id].append(
+                    FootnoteNetworkNode(
+                        from_object,
+                        [],
+                        arcrole,
+                        qname.FOOTNOTE_NETWORK_ARCNAME,
+                        linkrole,
+                        qname.FOOTNOTE_NETWORK_LINKNAME,
+                    )
                 )
 
+        to_nodes: List[FootnoteNetworkNode] = []
         for to_id in to_ids:
-            if to_id not in id_to_node:
-                to_object = (
-                    footnotes[to_id]
-                    if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
-                )
+            to_object = (
+                footnotes[to_id]
+                if to_id in footnotes
+                else fact_repository.get_by_id(to_id)
+            )
 
-                if not to_object:
-                    # Error
-                    continue
-
-                id_to_node[to_id] = FootnoteNetworkNode(
-                    to_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                    order,
-                )
+            to_node = FootnoteNetworkNode(
+                to_object,
+                [],
+                arcrole,
+                qname.FOOTNOTE_NETWORK_ARCNAME,
+                linkrole,
+                qname.FOOTNOTE_NETWORK_LINKNAME,
+                order,
+            )
+            id_to_nodes[to_id].append(to_node)
+            to_nodes.append(to_node)
+        arc_nodes.append(to_nodes)
 
-    root_nodes = [id_to_node[id] for id in root_ids]
+    root_nodes = [node for id in root_ids for node in id_to_nodes[id]]
 
-    return id_to_node, root_nodes
+    return id_to_nodes, arc_nodes, root_nodes
 
 
 def connect_footnote_network_nodes(
     arcs: List[Tuple[Dict[str, None], Dict[str, None], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
+    id_to_nodes: Dict[str, List[FootnoteNetworkNode]],
+    arc_nodes: List[List[FootnoteNetworkNode]],
 ):
-    for from_ids, to_ids, _, _, _ in arcs:
-        for from_id, to_id in itertools.product(from_ids, to_ids):
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+    for (from_ids, _, _, _, _), to_nodes in zip(arcs, arc_nodes):
+        for from_id, to_node in itertools.product(from_ids, to_nodes):
+            for from_node in id_to_nodes[from_id]:
+                from_node._add_child(to_node)
 
 
 def build_footnote_network(
@@ -320,10 +323,10 @@ def build_footnote_network(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
+    id_to_nodes, arc_nodes, root_nodes = create_footnote_network_nodes(
         arcs, footnotes, fact_repository
     )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    connect_footnote_network_nodes(arcs, id_to_nodes, arc_nodes)
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
-- 
2.43.0


From 4109f83cfaf714432beeb3200959b8f177a4cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 50/54] fix: open inline filings with relationships to unknown
 ids

The ids are reported as an error; the open failed nevertheless.
---
 .../XHMTL/networks/xhtml_parse_footnote_network.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 7546e74..f690240 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -238,6 +238,18 @@ def parse_relationship(
         error_repository,
     )
 
+    # the others have been reported
+    fromIds = {
+        id: None for id in fromIds if fact_repository.get_by_id_optional(id) is not None
+    }
+    toIds = {
+        id: None
+        for id in toIds
+        if id in footnotes or fact_repository.get_by_id_optional(id) is not None
+    }
+    if not fromIds or not toIds:
+        return None
+
     arcrole, linkrole, order = parse_relationship_attributes(
         relationship_element, error_repository
     )
-- 
2.43.0


From b14d7e2f4429adf1c4321946a6a8173fc1bdbcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 51/54] fix: accept role references of inline filings

The type of the link is in xlink:type; every role reference was reported as an
error.
---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f690240..6ff0cf5 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -388,7 +388,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From 3b785f9bcae28b89f701a50cca9deda82c59edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 52/54] fix: exports mix up allow_report_language and
 allow_system_language

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 0c3acbb..20b955d 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -577,8 +577,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From 8225005e023c84a3810e2151fdbac1ffdc0faac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 53/54] fix: unmixed exports repeat or drop rows when several
 languages are allowed

---
 brel/brel_filing.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 20b955d..f3834ff 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -527,13 +527,14 @@ class Filing:
                 data.append(d)
         else:
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except (KeyError, ValueError):
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From ef5f7a0f9a6e4c0c368fdbaf2507ea4dbf5ef6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 54/54] fix: the system language never matches any language

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index d01e76e..8729feb 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -41,7 +41,8 @@ class BrelConfig:
     @classmethod
     def get_system_language(cls) -> Optional[str]:
         locale, _ = getdefaultlocale()
-        return locale
+        # languages are written with a hyphen, e.g. "en-US", locales with an underscore
+        return locale.replace("_", "-") if locale else None
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0

