From ad2d9f04299b26cd707f556f187e6e143149531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 01/49] fix: enforce foreign keys on every connection

---
 src/toron/dal1/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..dfc9161 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,10 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        # Foreign key enforcement is a per-connection setting that is
+        # OFF by default (it must be enabled for every new connection).
+        cur.execute('PRAGMA foreign_keys=ON')
+
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From 0cc29052292c39bb37f1854b8d329d857d4d9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 02/49] fix: make reify_mappings() run in a transaction

---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..1d06927 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2242,7 +2242,9 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
-- 
2.43.0


From f9c51db2582d0a49404dfb189d501b3054cb6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 03/49] fix: make delete_unmatched_quantities() run in a
 transaction

---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 1d06927..85d75ac 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2732,7 +2732,9 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
+
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 240a539aa8502fd785bce933593b5146a1ed61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 04/49] fix: support header=False when selecting unmatched
 quantities

---
 src/toron/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 85d75ac..32b155b 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2632,9 +2632,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
                 label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2711,9 +2712,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
                 label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 4f20ed0804454ce46fe5fcb399af2e97df6d8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 05/49] fix: allow drop_weight_group() when no default group is
 defined

---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 32b155b..dc8c5f9 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1209,7 +1209,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_weight_group_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_weight_group_id = None  # No default group is defined.
+
+            if group.id == default_weight_group_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From 57542f85925d5a30a77892de16bb4e4386596a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 06/49] fix: quote label columns when updating index and
 location records

---
 src/toron/dal1/repositories.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..d309795 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,9 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +228,9 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 26accac10b4191f6b39bf7771162a901625f0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 07/49] fix: don't treat an index record as conflicting with
 itself on update

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index dc8c5f9..b1fe610 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -938,7 +938,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From 4b4a251c14b9a4a2e68fae63100e88368666aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 08/49] fix: refresh structure granularity when insert_index()
 replaces labels

---
 src/toron/space.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index b1fe610..bffcf8a 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,6 +759,17 @@ class DataSpace(object):
                     if link.is_locally_complete:
                         link_repo.update(replace(link, is_locally_complete=False))
 
+            elif counter['label_replaced']:
+                # Replacing labels doesn't change the set of index ids but
+                # can change the granularity of the label structures.
+                refresh_structure_granularity(
+                    label_manager=self._dal.LabelManager(cursor),
+                    structure_repo=self._dal.StructureRepository(cursor),
+                    index_repo=index_repo,
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From ad5f150e942ea80624476671acd953715967faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 09/49] fix: roll back transactions that are interrupted while
 beginning

---
 src/toron/space.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index bffcf8a..6d9857c 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -236,13 +236,14 @@ class DataSpace(object):
                 msg = 'cannot start a transaction within a transaction'
                 raise Exception(msg)
 
-            self._connector.transaction_begin(cursor)
             try:
-                yield cursor
-                self._connector.transaction_commit(cursor)
-            except Exception:
-                self._connector.transaction_rollback(cursor)
-                raise
+                self._connector.transaction_begin(cursor)
+                try:
+                    yield cursor
+                    self._connector.transaction_commit(cursor)
+                except Exception:
+                    self._connector.transaction_rollback(cursor)
+                    raise
             finally:
                 # If the transaction never completed, roll it back.
                 if self._connector.transaction_is_active(cursor):
-- 
2.43.0


From 3d03ffbc5404398b6cc25f7248ede928898a74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 10/49] fix: remove temporary file when a save is interrupted

---
 src/toron/dal1/data_connector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..7aebee6 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -6,7 +6,7 @@ import sqlite3
 import sys
 import urllib
 import weakref
-from contextlib import closing
+from contextlib import closing, suppress
 from tempfile import NamedTemporaryFile
 
 from toron._typing import (
@@ -458,8 +458,9 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:  # <- Includes KeyboardInterrupt, etc.
+            with suppress(FileNotFoundError):  # Missing if already replaced.
+                os.unlink(tmp_path)  # Remove temporary file.
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From 377bb3245a644e12ae0fd3a7653dddafc070c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 11/49] fix: remove temporary file when NodeReader creation
 fails

---
 src/toron/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..88bf308 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -125,8 +125,12 @@ class NodeReader(object):
                     cur.execute(sql, (index_id, attr_data_id, quant_value))
 
                 con.commit()
-            except Exception:
+            except BaseException:  # <- Includes KeyboardInterrupt, etc.
                 con.rollback()
+                if filepath:
+                    con.close()
+                    with suppress(FileNotFoundError):
+                        os.unlink(filepath)
                 raise
 
         # Assign instance attributes.
-- 
2.43.0


From 291458e1c27b0bf3b5f63850160650444b183bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 12/49] fix: create node schema in a single transaction

---
 src/toron/dal1/schema.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index dfc9161..78890dd 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -123,6 +123,9 @@ def create_schema_tables(cur: sqlite3.Cursor) -> None:
     cur.executescript("""
         PRAGMA foreign_keys = ON;
 
+        /* Create the schema atomically (see create_node_schema()). */
+        BEGIN TRANSACTION;
+
         /* Uses AUTOINCREMENT because 'index_id' must not be reused. */
         CREATE TABLE main.label_index(
             index_id INTEGER PRIMARY KEY AUTOINCREMENT
@@ -370,8 +373,15 @@ def create_node_schema(cur: sqlite3.Cursor) -> None:
         msg = f'database must be empty; found tables: {formatted}'
         raise RuntimeError(msg)
 
-    create_schema_tables(cur)
-    create_schema_constraints(cur)
+    # Note: create_schema_tables() begins the transaction.
+    try:
+        create_schema_tables(cur)
+        create_schema_constraints(cur)
+        cur.execute('COMMIT TRANSACTION')
+    except BaseException:
+        if cur.connection.in_transaction:
+            cur.execute('ROLLBACK TRANSACTION')
+        raise
 
 
 def verify_foreign_key_check(cursor: sqlite3.Cursor) -> None:
-- 
2.43.0


From eddca55edb9cc68335ec4f41de7955485da11142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 13/49] fix: keep label display order in sync with renamed and
 dropped labels

---
 src/toron/data_service.py | 14 ++++++++++++++
 src/toron/space.py        |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..5f260df 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -710,6 +710,19 @@ def rename_partition_definitions(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Update the saved display order (if any) to use renamed labels."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (No display order specified.)
+    renamed_order: JsonTypes = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', renamed_order)
+
+
 def calculate_granularity(
     columns: List[str],
     index_repo: BaseIndexRepository,
@@ -1101,6 +1114,7 @@ def get_labels_in_display_order(
 
     # Get any unspecified labels in storage order.
     storage_order = index_repo.get_label_names()
+    display_order = [x for x in display_order if x in storage_order]
     unspecified_labels = [x for x in storage_order if x not in display_order]
 
     if unspecified_labels:
diff --git a/src/toron/space.py b/src/toron/space.py
index 6d9857c..7dab75e 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,7 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    rename_labels_in_display_order,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -445,6 +446,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -550,6 +552,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
-- 
2.43.0


From 62a4dd61f9fa4b5f9260327040e4492fefa06e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 14/49] fix: reject weights that are not finite numbers

---
 src/toron/dal1/repositories.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index d309795..54b457f 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -4,6 +4,7 @@ import sqlite3
 from dataclasses import asdict
 from itertools import chain, repeat
 from json import dumps as json_dumps
+from math import isfinite
 
 from toron._typing import (
     Any,
@@ -443,6 +444,10 @@ class WeightRepository(BaseWeightRepository):
             msg = f'value cannot be negative, got {value!r}'
             raise ValueError(msg)
 
+        if not isfinite(value):
+            msg = f'value must be a finite number, got {value!r}'
+            raise ValueError(msg)
+
         try:
             sql = """
                 INSERT INTO main.weight (weight_group_id, index_id, weight_value)
@@ -483,6 +488,10 @@ class WeightRepository(BaseWeightRepository):
             msg = f'value cannot be negative, got {record.value!r}'
             raise ValueError(msg)
 
+        if not isfinite(record.value):
+            msg = f'value must be a finite number, got {record.value!r}'
+            raise ValueError(msg)
+
         sql = f"""
             UPDATE main.weight
             SET
-- 
2.43.0


From 5a50d381c964391200c4fab1f6d60c59073e7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 15/49] fix: reject mapping values that are infinite

---
 src/toron/dal1/repositories.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 54b457f..a0af1f7 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -4,7 +4,7 @@ import sqlite3
 from dataclasses import asdict
 from itertools import chain, repeat
 from json import dumps as json_dumps
-from math import isfinite
+from math import isfinite, isinf
 
 from toron._typing import (
     Any,
@@ -994,6 +994,18 @@ class MappingRepository(BaseMappingRepository):
         """Initialize a new repository instance."""
         self._cursor = cursor
 
+    @staticmethod
+    def _verify_not_infinite(value: float) -> None:
+        """Raise a ``ValueError`` if *value* is infinite (an infinite
+        value can not be used to calculate proportions).
+        """
+        try:
+            is_infinite = isinf(float(value))
+        except (TypeError, ValueError):
+            return  # Non-numeric values are handled by table constraints.
+        if is_infinite:
+            raise ValueError(f'mapping value must be finite, got {value!r}')
+
     if sqlite3.sqlite_version_info >= (3, 32, 0):
         def add(
             self,
@@ -1015,6 +1027,8 @@ class MappingRepository(BaseMappingRepository):
             if not isinstance(mapping_level, bytes):
                 raise TypeError(f'mapping_level must be bytes, got {mapping_level!r}')
 
+            self._verify_not_infinite(value)
+
             sql = """
                 INSERT INTO main.mapping (
                     link_id,
@@ -1059,6 +1073,8 @@ class MappingRepository(BaseMappingRepository):
             if not isinstance(mapping_level, bytes):
                 raise TypeError(f'mapping_level must be bytes, got {mapping_level!r}')
 
+            self._verify_not_infinite(value)
+
             sql = """
                 INSERT INTO main.mapping (
                     link_id,
@@ -1096,6 +1112,8 @@ class MappingRepository(BaseMappingRepository):
     if sqlite3.sqlite_version_info >= (3, 32, 0):
         def update(self, record: MappingRecord) -> None:
             """Update a record in the repository."""
+            self._verify_not_infinite(record.value)
+
             sql = f"""
                 UPDATE main.mapping
                 SET link_id=?,
@@ -1122,6 +1140,8 @@ class MappingRepository(BaseMappingRepository):
         # and 'value' need to be converted *before* inserting or updating.
         def update(self, record: MappingRecord) -> None:
             """Update a record in the repository."""
+            self._verify_not_infinite(record.value)
+
             sql = f"""
                 UPDATE main.mapping
                 SET link_id=?,
-- 
2.43.0


From 6132bf7271e8d586d5cdbfc98039bbbb0194770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 16/49] fix: remove leftover journal file when a save fails

---
 src/toron/dal1/data_connector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 7aebee6..310fecf 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -461,6 +461,8 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
         except BaseException:  # <- Includes KeyboardInterrupt, etc.
             with suppress(FileNotFoundError):  # Missing if already replaced.
                 os.unlink(tmp_path)  # Remove temporary file.
+            with suppress(FileNotFoundError):  # Remains if roll-back failed.
+                os.unlink(f'{tmp_path}-journal')
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From b6a85d4e6267677aae025ff32a481f408b29f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 17/49] fix: stop changing data once a storage error has ended
 the transaction

---
 src/toron/data_service.py | 10 ++--------
 src/toron/space.py        |  8 +++++++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 5f260df..e03960a 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -117,10 +117,7 @@ def refresh_index_hash_property(
         sequence_hash.add_value(index_id)
 
     index_hash = sequence_hash.get_hexdigest()
-    try:
-        prop_repo.add('index_hash', index_hash)
-    except Exception:
-        prop_repo.update('index_hash', index_hash)
+    prop_repo.add_or_update('index_hash', index_hash)
 
 
 def delete_index_record(
@@ -858,10 +855,7 @@ def add_partition_definitions(
         warnings.warn(msg, category=ToronWarning, stacklevel=2)
 
     definition_lists = cast(JsonTypes, [list(cat) for cat in definition_sets])
-    try:
-        property_repo.add('partition_definitions', definition_lists)
-    except Exception:
-        property_repo.update('partition_definitions', definition_lists)
+    property_repo.add_or_update('partition_definitions', definition_lists)
 
 
 def add_partition_definition(
diff --git a/src/toron/space.py b/src/toron/space.py
index 7dab75e..8905709 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2416,7 +2416,13 @@ class DataSpace(object):
                     )
                     counter['inserted'] += 1
                 except Exception as err:  # <- Use `Exception` because different
-                    try:                  #    backends could raise different types.
+                                          #    backends could raise different types.
+                    # If the error has already ended the transaction (as some
+                    # storage errors do), then no more changes can be made.
+                    if not self._connector.transaction_is_active(cur):
+                        raise
+
+                    try:
                         quantity = quantity_repo.get_by_location_id_and_attribute_group_id(
                             location_id=location.id,
                             attribute_group_id=attribute_group.id,
-- 
2.43.0


From fa823aca0f6913b2f07b97f9c684e6804b8fb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:08 +0000
Subject: [PATCH 18/49] fix: complete a failed rollback before an in-memory
 space is used again

---
 src/toron/dal1/data_connector.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 310fecf..1be1a1f 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -262,6 +262,9 @@ def verify_permissions(
 
 
 class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
+    # True when a rollback has failed and is still to be done.
+    _rollback_pending: bool = False
+
     def __init__(self, cache_to_drive: bool = False) -> None:
         """Initialize a new node instance."""
         self._unique_id: str
@@ -313,6 +316,12 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
     def acquire_connection(self) -> ToronSqlite3Connection:
         """Return a connection to the node's SQLite database."""
         if self._in_memory_connection:
+            if self._rollback_pending:
+                # Finish a rollback that failed (connections to files on
+                # drive are rolled back when they get closed).
+                if self._in_memory_connection.in_transaction:
+                    self._in_memory_connection.execute('ROLLBACK TRANSACTION')
+                self._rollback_pending = False
             return self._in_memory_connection
 
         if self._current_working_path:
@@ -351,7 +360,10 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
 
     def transaction_rollback(self, cursor: sqlite3.Cursor) -> None:
         """Roll-back the transaction."""
-        cursor.execute('ROLLBACK TRANSACTION')
+        try:
+            cursor.execute('ROLLBACK TRANSACTION')
+        finally:
+            self._rollback_pending = cursor.connection.in_transaction
 
     def transaction_commit(self, cursor: sqlite3.Cursor) -> None:
         """Commit the transaction."""
-- 
2.43.0


From a62772a07bb2e54e3f50a3746c2aa522a144ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 19/49] fix: keep merged proportions within bounds despite
 rounding errors

---
 src/toron/data_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..c779e77 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,8 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    # Rounding errors must not push the sum above 1.
+                    proportion = min(p + rel.proportion, 1.0)
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From 7add3e75787bac5fd2ef73f4f638cf5d9ae29ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:32 +0000
Subject: [PATCH 20/49] fix: read a consistent state when selecting
 disaggregated data

---
 src/toron/space.py | 50 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 8905709..4f31004 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3,7 +3,7 @@
 import array
 import os
 from collections import Counter, defaultdict
-from contextlib import contextmanager, nullcontext
+from contextlib import ExitStack, contextmanager, nullcontext
 from dataclasses import replace
 from itertools import chain, compress, groupby
 from logging import getLogger
@@ -38,6 +38,7 @@ from .data_models import (
     Location,
     AttributesDict,
     AttributeGroup,
+    BaseAttributeGroupRepository,
     WeightGroup,
     BaseLinkRepository,
     Link,
@@ -81,6 +82,7 @@ from toron.reader import (
     NodeReader,
 )
 from .selectors import (
+    SelectorBase,
     parse_selector,
     get_greatest_unique_specificity,
 )
@@ -2795,13 +2797,17 @@ class DataSpace(object):
         self,
         attribute_id_filter: Optional[List[int]] = None,
         quantize: bool = False,
+        selector_objs: Optional[List[SelectorBase]] = None,
     ) -> Generator[Tuple[int, AttributesDict, float], None, None]:
         """Generator to yield index, attribute, and quantity tuples."""
-        # Assign domain locally to reduce dot-lookups.
-        # TODO: Refactor this to remove old `dict` handling logic for domain.
-        domain_dict = {'domain': self.domain} if self.domain else {}
+        with ExitStack() as stack:
+            cur1, cur2, cur3 = stack.enter_context(self._managed_cursor(n=3))
+
+            # Use a single transaction so that all of the records belong
+            # to the same state (even if the file is being modified).
+            if not self._connector.transaction_is_active(cur1):
+                stack.enter_context(self._managed_transaction(cur1))
 
-        with self._managed_cursor(n=3) as (cur1, cur2, cur3):
             # These repository instances can share a single cursor.
             property_repo = self._dal.PropertyRepository(cur1)
             weight_group_repo = self._dal.WeightGroupRepository(cur1)
@@ -2814,6 +2820,15 @@ class DataSpace(object):
             location_repo = self._dal.LocationRepository(cur2)
             quantity_repo = self._dal.QuantityRepository(cur3)
 
+            # TODO: Refactor this to remove old `dict` handling logic for domain.
+            domain = get_domain(property_repo)
+            domain_dict = {'domain': domain} if domain else {}
+
+            if selector_objs is not None:
+                attribute_id_filter = self._get_matching_attribute_ids(
+                    attribute_repo, selector_objs
+                )
+
             # Get the default weight group and make sure it's complete.
             default_weight_group = get_default_weight_group(
                 property_repo, weight_group_repo
@@ -2913,6 +2928,17 @@ class DataSpace(object):
                             for index_id, value in disaggregated:
                                 yield (index_id, attributes, value)
 
+    @staticmethod
+    def _get_matching_attribute_ids(
+        attribute_repo: BaseAttributeGroupRepository,
+        selector_objs: Iterable[SelectorBase],
+    ) -> List[int]:
+        """Get ids of attribute groups matched by one or more selectors."""
+        return [
+            attr.id for attr in attribute_repo.find_all()
+                if any(sel(attr.attributes) for sel in selector_objs)
+        ]
+
     def __call__(
         self,
         *selectors: str,
@@ -2938,15 +2964,11 @@ class DataSpace(object):
                 except (TypeError, AttributeError) as e:
                     msg = f'{e}. Did you mean to use a keyword-only argument?'
                     raise TypeError(msg)
-                attribute_id_filter = []
-                for attr in attribute_repo.find_all():
-                    for sel in selector_objs:
-                        # If a selector matches, add id to filter,
-                        # then break inner-loop and skip to next attr.
-                        if sel(attr.attributes):
-                            attribute_id_filter.append(attr.id)
-                            break
+                attribute_id_filter = self._get_matching_attribute_ids(
+                    attribute_repo, selector_objs
+                )
             else:
+                selector_objs = None
                 attribute_id_filter = None
 
             # Find attribute-weight matches as `(attr_group, wt_group)` tuples.
@@ -2973,7 +2995,7 @@ class DataSpace(object):
             # is used to reduce selector matching during disaggregation.
 
         # Get disaggregated results generator.
-        data = self._disaggregate(attribute_id_filter, quantize=quantize)
+        data = self._disaggregate(quantize=quantize, selector_objs=selector_objs)
 
         # If *sum_by_attrs* is provided, only keep the specified attributes.
         if sum_by_attrs:
-- 
2.43.0


From a0f001f2e27600af61601e97a195a318b65445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:52 +0000
Subject: [PATCH 21/49] fix: don't assign quantities to the undefined record in
 place of a defined one

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 4f31004..fdfe24c 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2865,10 +2865,12 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
-                        try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
-                        except StopIteration:
+                        # only be one matching index record (besides the
+                        # undefined record which can match as well).
+                        index_ids = list(index_repo.filter_index_ids_by_label(criteria))
+                        if index_ids:
+                            index_id = max(index_ids, key=bool)  # Prefer defined record.
+                        else:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
                             raise RuntimeError(msg)
-- 
2.43.0


From be950ebee345d2069c5d7a0d51d2cc51e5d4d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 22/49] fix: refuse to translate using an incomplete default
 link

---
 src/toron/data_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index e03960a..886708b 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -523,6 +523,9 @@ def make_get_link_id_func(
     default_link_id = None
     for link in links:
         if link.is_default:
+            if not link.is_locally_complete:
+                raise RuntimeError(f'default link {link.name!r} is not complete')
+
             default_link_id = link.id
             break
     else:  # IF NO BREAK!
-- 
2.43.0


From 2ec330396915591f36778797dfbd1bb844e920df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 23/49] fix: don't translate using links that are out of date

---
 src/toron/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..aaf7c4b 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -658,7 +658,11 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
-        links = [x for x in links if x.is_locally_complete and x.selectors]
+        links = [
+            x for x in links if (x.other_index_hash == quantity_iterator.index_hash
+                                 and x.is_locally_complete
+                                 and x.selectors)
+        ]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
 
-- 
2.43.0


From becb9a06df751cedf865530071e94b5839fdd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 24/49] fix: use a consistent state of the links when
 translating

---
 src/toron/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 88bf308..4d1a9f8 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -4,6 +4,7 @@ import os
 import sqlite3
 import weakref
 from contextlib import (
+    ExitStack,
     closing,
     contextmanager,
     nullcontext,
@@ -287,7 +288,14 @@ class NodeReader(object):
             old_index_hash = check_type(property_repo.get('index_hash'), str)
 
         # Translate "quant_data" table to use the index of the new *node*.
-        with node._managed_cursor() as node_cur:
+        with ExitStack() as stack:
+            node_cur = stack.enter_context(node._managed_cursor())
+
+            # Use a single transaction so that all of the mappings belong
+            # to the same state (even if the file is being modified).
+            if not node._connector.transaction_is_active(node_cur):
+                stack.enter_context(node._managed_transaction(node_cur))
+
             mapping_repo = node._dal.MappingRepository(node_cur)
 
             get_link_id = make_get_link_id_func(
-- 
2.43.0


From a46eb993c15324e177e1cce7a30c1581b509fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 25/49] fix: keep reader usable when translation fails or is
 interrupted

---
 src/toron/reader.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 4d1a9f8..af5455b 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -242,7 +242,7 @@ class NodeReader(object):
         try:
             yield connection
             connection.commit()
-        except Exception:
+        except BaseException:  # <- Includes KeyboardInterrupt, etc.
             connection.rollback()
             raise
         finally:
@@ -282,6 +282,8 @@ class NodeReader(object):
         if quantize is None:
             quantize = self.quantize_default
 
+        index_columns = node.index_columns
+
         # Get `old_index_hash` from source node.
         with self._node._managed_cursor() as node_cur:
             property_repo = self._node._dal.PropertyRepository(node_cur)
@@ -304,9 +306,10 @@ class NodeReader(object):
                 other_index_hash=old_index_hash,
             )
 
-            with self._managed_connection() as con:
-                cur1 = con.cursor()
-                cur2 = con.cursor()
+            with self._managed_connection() as con, \
+                    closing(con.cursor()) as cur1, \
+                    closing(con.cursor()) as cur2:
+                cur1.execute('BEGIN TRANSACTION')
 
                 # Update 'link_id' to use ids from new node.
                 cur1.execute('SELECT attr_data_id, attributes FROM main.attr_data')
@@ -362,8 +365,16 @@ class NodeReader(object):
                 cur1.execute('DROP TABLE main.quant_data')
                 cur1.execute('ALTER TABLE main.new_quant_data RENAME TO quant_data')
 
-        self._node = node  # Replace old node reference with the new node.
-        self._index_columns = node.index_columns
+                # Commit changes and replace old node reference with the new
+                # node (restores the old reference if changes aren't saved).
+                old_node, old_columns = self._node, self._index_columns
+                try:
+                    self._node, self._index_columns = node, index_columns
+                    con.commit()
+                except BaseException as err:
+                    if isinstance(err, Exception) or con.in_transaction:
+                        self._node, self._index_columns = old_node, old_columns
+                    raise
 
     def __rshift__(self, other: 'DataSpace') -> 'NodeReader':
         """Translate quantities to the index of the *other* node."""
-- 
2.43.0


From 45201f544d25214978c10d270ca80081f8f7e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 26/49] fix: remove journal along with temporary database of a
 discarded space

---
 src/toron/dal1/data_connector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 1be1a1f..37c1ef6 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -261,6 +261,13 @@ def verify_permissions(
             )
 
 
+def remove_temporary_database(path: str) -> None:
+    """Remove a temporary database file along with its journal."""
+    with suppress(FileNotFoundError):  # Exists if roll-back failed.
+        os.unlink(f'{path}-journal')
+    os.unlink(path)
+
+
 class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
     # True when a rollback has failed and is still to be done.
     _rollback_pending: bool = False
@@ -276,7 +283,7 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
             # Create temporary file and get path.
             with closing(NamedTemporaryFile(suffix='.toron', delete=False)) as f:
                 database_path = os.path.abspath(f.name)
-            weakref.finalize(self, os.unlink, database_path)
+            weakref.finalize(self, remove_temporary_database, database_path)
 
             # Create Toron node schema and close connection.
             with closing(get_sqlite_connection(database_path)) as con:
@@ -503,7 +510,7 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
             # Create temporary file and get path.
             with closing(NamedTemporaryFile(suffix='.toron', delete=False)) as f:
                 database_path = os.path.abspath(f.name)
-            weakref.finalize(instance, os.unlink, database_path)
+            weakref.finalize(instance, remove_temporary_database, database_path)
 
             # Read data source into node database (then close all connections).
             with closing(get_sqlite_connection(database_path)) as con:
-- 
2.43.0


From 38ef59521a6938f3fddace809e28f7b34e3c4b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 27/49] fix: remove temporary file when creating a reader fails

---
 src/toron/reader.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index af5455b..1a5d27d 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -67,6 +67,9 @@ class NodeReader(object):
         # Set default value for quantizing data during translation.
         self.quantize_default = quantize_default
 
+        # Get label columns first (nothing to clean up if this fails).
+        index_columns = node.index_columns
+
         # `NodeReader` data is managed using a temporary SQLite
         # database with the following schema:
         #
@@ -86,7 +89,11 @@ class NodeReader(object):
             with closing(NamedTemporaryFile(delete=False)) as f:
                 filepath = os.path.realpath(f.name)  # resolve symlinks with realpath
             connection = None
-            connection_cm = closing(sqlite3.connect(filepath))
+            try:
+                connection_cm = closing(sqlite3.connect(filepath))
+            except BaseException:
+                self._remove_temporary_file(filepath)
+                raise
         else:
             filepath = None
             connection = sqlite3.connect(':memory:')
@@ -127,11 +134,12 @@ class NodeReader(object):
 
                 con.commit()
             except BaseException:  # <- Includes KeyboardInterrupt, etc.
-                con.rollback()
-                if filepath:
-                    con.close()
-                    with suppress(FileNotFoundError):
-                        os.unlink(filepath)
+                try:
+                    con.rollback()
+                finally:
+                    if filepath:
+                        con.close()
+                        self._remove_temporary_file(filepath)
                 raise
 
         # Assign instance attributes.
@@ -139,7 +147,7 @@ class NodeReader(object):
         self._in_memory_connection = connection
         self._data = None  # <- Assigned only when iteration begins.
         self._node = node
-        self._index_columns = node.index_columns
+        self._index_columns = index_columns
         self._attr_keys = sorted(attr_keys)
 
         # Assign `close()` method (gets a callable finalizer object).
@@ -171,8 +179,14 @@ class NodeReader(object):
             self._in_memory_connection.close()
 
         if self._current_working_path:
+            self._remove_temporary_file(self._current_working_path)
+
+    @staticmethod
+    def _remove_temporary_file(path: str) -> None:
+        """Remove a temporary database file along with its journal."""
+        for name in (f'{path}-journal', path):  # Has journal if roll-back failed.
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(name)
 
     @property
     def index_columns(self) -> List[str]:
-- 
2.43.0


From 2a94d71c95eb1beac4c61971367774cb46ca07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 28/49] fix: re-check schema version inside the migration
 transaction

---
 src/toron/dal1/migrations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index f844da6..56d9f06 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -262,7 +262,15 @@ def apply_migrations(
 
     cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
     try:
-        cursor.execute('BEGIN TRANSACTION')
+        # Acquire the write lock and get the version again, another connection
+        # may have updated the schema in the meantime.
+        cursor.execute('BEGIN IMMEDIATE TRANSACTION')
+        cursor.execute("SELECT value FROM main.property "
+                       "WHERE key='toron_schema_version'")
+        if cursor.fetchone()[0] != toron_schema_version:
+            cursor.execute('ROLLBACK TRANSACTION')
+            return apply_migrations(cursor, mode)  # <- EXIT!
+
         schema.drop_schema_constraints(cursor)
 
         if toron_schema_version in {'0.2.0', '"0.2.0"'}:
-- 
2.43.0


From dbdc45276e52a7e8adfcc1d5be345a23d0d14fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 29/49] fix: make all weight group changes of update command or
 none

---
 src/toron/cli/command_update.py | 85 ++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index 52cd2fa..c842529 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -2,17 +2,14 @@
 import argparse
 import logging
 from dataclasses import replace
-from .._typing import cast, TYPE_CHECKING
 
+from ..data_service import set_default_weight_group
 from .common import (
     cli_bind_file,
     process_backup_option,
     ExitCode,
 )
 
-if TYPE_CHECKING:
-    from toron.data_models import WeightGroup
-
 
 applogger = logging.getLogger('app-toron')
 
@@ -39,41 +36,51 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
     node = cli_bind_file(args.filepath, mode='rw')
     process_backup_option(args, node)
 
-    group = node.get_weight_group(args.weight)
-    if not group:
-        applogger.error(f'no weight group named {args.weight!r}')
-        return ExitCode.ERR
-
-    if args.description:
-        node.edit_weight_group(args.weight, description=args.description)
-        applogger.info(f'changed description: {args.description!r}')
-
-    if args.add_selector or args.remove_selector:
-        selectors = list(group.selectors) if group.selectors else []
-        if args.add_selector:
-            selectors.extend(args.add_selector)
-            applogger.info(f"added selectors: "
-                           f"{', '.join(repr(x) for x in args.add_selector)}")
-
-        if args.remove_selector:
-            for sel in args.remove_selector:
-                if sel in selectors:
-                    selectors.remove(sel)
-            applogger.info(f"removed selectors: "
-                           f"{', '.join(repr(x) for x in args.remove_selector)}")
-
-        selectors = sorted(set(selectors))  # Should be unique.
-
-        # Remove any line-breaks in selector text.
-        func = lambda x: x.replace('\n', ' ').replace('\r\n', ' ')
-        selectors = [func(sel) for sel in selectors]
-
-        node.edit_weight_group(args.weight, selectors=selectors)
-
-    if args.make_default:
-        group = cast('WeightGroup', node.get_weight_group(args.weight))
-        node.set_default_weight_group(group)  # Change default WeightGroup.
-        applogger.info(f'set weight {args.weight!r} as the default')
+    messages = []
+    with node._managed_transaction() as cursor:  # Make all changes or none.
+        group_repo = node._dal.WeightGroupRepository(cursor)
+        try:
+            group = group_repo.get_by_name(args.weight)
+        except KeyError:
+            applogger.error(f'no weight group named {args.weight!r}')
+            return ExitCode.ERR
+
+        if args.description:
+            group = replace(group, description=args.description)
+            messages.append(f'changed description: {args.description!r}')
+
+        if args.add_selector or args.remove_selector:
+            selectors = list(group.selectors) if group.selectors else []
+            if args.add_selector:
+                selectors.extend(args.add_selector)
+                messages.append(f"added selectors: "
+                                f"{', '.join(repr(x) for x in args.add_selector)}")
+
+            if args.remove_selector:
+                for sel in args.remove_selector:
+                    if sel in selectors:
+                        selectors.remove(sel)
+                messages.append(f"removed selectors: "
+                                f"{', '.join(repr(x) for x in args.remove_selector)}")
+
+            selectors = sorted(set(selectors))  # Should be unique.
+
+            # Remove any line-breaks in selector text.
+            func = lambda x: x.replace('\n', ' ').replace('\r\n', ' ')
+            selectors = [func(sel) for sel in selectors]
+            group = replace(group, selectors=selectors)
+
+        group_repo.update(group)
+
+        if args.make_default:
+            set_default_weight_group(  # Change default WeightGroup.
+                weight_group=group,
+                property_repo=node._dal.PropertyRepository(cursor),
+            )
+            messages.append(f'set weight {args.weight!r} as the default')
+
+    for message in messages:
+        applogger.info(message)
 
     return ExitCode.OK
 
-- 
2.43.0


From da00a1396402a1e98b3dfbdbe82f5a3da761df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 30/49] fix: don't report failure after init has created the
 file

---
 src/toron/cli/command_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/cli/command_init.py b/src/toron/cli/command_init.py
index b12b313..e0cbf88 100644
--- a/src/toron/cli/command_init.py
+++ b/src/toron/cli/command_init.py
@@ -27,6 +27,7 @@ def create_file(args: argparse.Namespace) -> ExitCode:
     else:
         node.set_domain(os.path.splitext(os.path.basename(args.filepath))[0])
 
+    domain = node.domain
     try:
         node.to_file(args.filepath)
     except OSError as e:
@@ -35,5 +36,5 @@ def create_file(args: argparse.Namespace) -> ExitCode:
 
     applogger.info(f'created file {args.filepath!r}')
     if args.domain is None:
-        applogger.info(f'domain set to {node.domain!r}')
+        applogger.info(f'domain set to {domain!r}')
     return ExitCode.OK
-- 
2.43.0


From 7261a1c082ac8e40f33f2d20dbbc7aa8b9978071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 31/49] fix: keep line endings inside CSV fields read from
 stdin

---
 src/toron/cli/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/cli/main.py b/src/toron/cli/main.py
index 1f937cd..50c6b80 100644
--- a/src/toron/cli/main.py
+++ b/src/toron/cli/main.py
@@ -546,6 +546,9 @@ def main(
     parser = get_parser()
     args = parser.parse_args(argv)
 
+    if stdin is None and hasattr(sys.stdin, 'reconfigure'):
+        sys.stdin.reconfigure(newline='')  # Keep line endings inside CSV fields.
+
     args.stdin = stdin or sys.stdin
     args.stdout = stdout or sys.stdout
 
-- 
2.43.0


From e50569243b35e0c5b53cedbfccc6a6079478c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 32/49] fix: accept the undefined record's zero weight in
 exported index data

---
 src/toron/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index fdfe24c..7cdc0ea 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -713,6 +713,9 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    if index_id == 0 and weight_value == 0.0:
+                        continue  # Undefined record has no weight (always 0).
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From 31b92aecbcd4124e430d6bb0f1ebbd14c4edd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 33/49] fix: don't add link to one file when it exists in the
 other

---
 src/toron/cli/command_add.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/toron/cli/command_add.py b/src/toron/cli/command_add.py
index 9bb4e3f..e2e409d 100644
--- a/src/toron/cli/command_add.py
+++ b/src/toron/cli/command_add.py
@@ -107,6 +107,17 @@ def add_link(args: argparse.Namespace) -> ExitCode:
     )
 
     if args.direction == 'both':
+        # Check FILE1 before FILE2 is changed (`add_link()` checks FILE2).
+        try:
+            link_exists = node1.get_link(node2, args.link).name == args.link
+        except ToronError:
+            link_exists = False
+        if link_exists:
+            raise ToronError(
+                f'a link named {args.link!r} already exists '
+                f'between these two dataspaces'
+            )
+
         do_add(node1, node2, args)  # node1 -> node2
         do_add(node2, node1, args)  # node1 <- node2
     elif args.direction == 'right':
-- 
2.43.0


From 875f2f8bbe0801ff38da468d881a2d613a4bf851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:05 +0000
Subject: [PATCH 34/49] fix: don't report failure after mapping data has been
 loaded

---
 src/toron/cli/command_mapping.py |  8 ++------
 src/toron/space.py               | 11 +++++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..44be2e0 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -23,11 +23,9 @@ from .._typing import (
     Sequence,
     Tuple,
     Union,
-    cast,
 )
 
 from .. import DataSpace
-from ..data_models import Link
 from ..data_service import generate_mapping_elements
 from ..mapper import (
     get_mapping_value_position,
@@ -414,13 +412,12 @@ def read_from_stdin(
     if args.direction in {'both', 'right'}:
         applogger.info(f'loading mappings: FILE1 -> FILE2')
         mappings = mapper.iter_mappings('node2')
-        node2.insert_mappings2(
+        link = node2.insert_mappings2(
             node1,
             args.link,
             data=mappings,
             columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'],
         )
-        link = cast(Link, node2.get_link(node1, args.link))
         if link.is_locally_complete:
             applogger.info(f'mapping is complete')
         else:
@@ -430,13 +427,12 @@ def read_from_stdin(
     if args.direction in {'both', 'left'}:
         applogger.info(f'loading mappings: FILE1 <- FILE2')
         mappings = mapper.iter_mappings('node1')
-        node1.insert_mappings2(
+        link = node1.insert_mappings2(
             node2,
             args.link,
             data=mappings,
             columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'],
         )
-        link = cast(Link, node1.get_link(node2, args.link))
         if link.is_locally_complete:
             applogger.info(f'mapping is complete')
         else:
diff --git a/src/toron/space.py b/src/toron/space.py
index 7cdc0ea..59449e0 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1775,8 +1775,8 @@ class DataSpace(object):
         link_name: Optional[str],
         data: Union[Iterable[Sequence], Iterable[Dict]],
         columns: Optional[Sequence[str]] = None,
-    ) -> None:
-        r"""Insert mappings for specified link.
+    ) -> Link:
+        r"""Insert mappings for specified link and return the link.
 
         .. code-block:: python
 
@@ -1857,11 +1857,12 @@ class DataSpace(object):
                     mapping_repo.refresh_proportions(link_id, other_index_id)
 
                 # Assign new values and update link record.
-                link_repo.update(replace(
+                link = replace(
                     link,
                     other_index_hash=sequence_hash.get_hexdigest(),
                     is_locally_complete=mapping_repo.mapping_is_complete(link_id),
-                ))
+                )
+                link_repo.update(link)
             else:
                 applogger.warning('no mappings loaded')
 
@@ -1877,6 +1878,8 @@ class DataSpace(object):
                     f"invalid mapping levels"
                 )
 
+        return link
+
     def insert_mappings(
         self,
         space_or_ref: Union['DataSpace', str],
-- 
2.43.0


From 2a576b736159a8d57f18dc250cbf9fec0a25d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:19 +0000
Subject: [PATCH 35/49] fix: keep reader usable when a pivot is abandoned or
 several are open

---
 src/toron/reader.py | 119 +++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 63 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 1a5d27d..6708f6e 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -440,80 +440,73 @@ def pivot_reader(
     aggregate_function: Literal['sum', 'mean'] = 'sum',
 ) -> Generator[PivotedRowType, None, None]:
     """An experimental pivot implementation for ``NodeReader`` data."""
-    aggfuncs = {'sum': 'SUM', 'mean': 'AVG'}  # <- Values are SQLite functions.
+    aggfuncs: Dict[str, Callable[[List[float]], float]] = {
+        'sum': sum,
+        'mean': (lambda values: sum(values) / len(values)),
+    }
     if aggregate_function not in aggfuncs.keys():
         msg = (
             f"invalid aggregate_function {aggregate_function!r}; must "
             f"be one of: {', '.join(repr(x) for x in aggfuncs.keys())}."
         )
         raise ValueError(msg)
+    aggfunc = aggfuncs[aggregate_function]
 
     columns = list(columns)
 
-    with reader._managed_connection() as con:
-        cur1 = con.cursor()
-        cur2 = con.cursor()
-        cur1.execute("""
-            CREATE TEMPORARY TABLE pivot_temp (
-                attr_data_id INTEGER NOT NULL,
-                pivot_attrs TEXT NOT NULL
-            )
+    # NOTE: This function must not write to the reader's connection (not
+    # even to a temporary table). The connection can be shared with other
+    # iterators and this one may be closed or discarded before it ends.
+    with reader._managed_connection() as con, closing(con.cursor()) as cur:
+        # Map 'attr_data_id' values to pivot attributes.
+        pivot_lookup = {}
+        cur.execute('SELECT attr_data_id, attributes FROM main.attr_data')
+        for attr_data_id, attributes in cur:
+            attrs_dict = loads(attributes)
+            pivot_attrs = [attrs_dict.get(x, '') for x in columns]
+
+            if not any(pivot_attrs):
+                continue  # Skip to next if pivot attrs are all empty.
+
+            pivot_lookup[attr_data_id] = dumps(pivot_attrs)
+
+        # Get distinct list of columns.
+        pivoted_columns = sorted(set(pivot_lookup.values()))
+
+        # Format and yield header row.
+        str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
+        yield list(reader._node.index_columns) + str_or_tuple_cols
+
+        # Get values for pivot (must be sorted by `index_id` and must be
+        # summed before pivot aggregation).
+        cur.execute("""
+            SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
+            FROM main.quant_data
+            GROUP BY index_id, attr_data_id
+            ORDER BY index_id
         """)
-        try:
-            cur1.execute('SELECT attr_data_id, attributes FROM main.attr_data')
-            for attr_data_id, attributes in cur1:
-                attrs_dict = loads(attributes)
-                pivot_attrs = [attrs_dict.get(x, '') for x in columns]
-
-                if not any(pivot_attrs):
-                    continue  # Skip to next if pivot attrs are all empty.
-
-                cur2.execute(
-                    'INSERT INTO temp.pivot_temp VALUES (?, ?)',
-                    (attr_data_id, dumps(pivot_attrs)),
-                )
-
-            # Get distinct list of columns after populating table.
-            cur1.execute("""
-                SELECT DISTINCT pivot_attrs
-                FROM temp.pivot_temp
-                ORDER BY pivot_attrs
-            """)
-            pivoted_columns = [x[0] for x in cur1]  # Unwrap single item results.
-
-            # Format and yield header row.
-            str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
-            yield list(reader._node.index_columns) + str_or_tuple_cols
-
-            # Get aggregated values for pivot (must be sorted by `index_id`).
-            sql_aggfunc = aggfuncs[aggregate_function]
-            cur1.execute(f"""
-                SELECT index_id, pivot_attrs, {sql_aggfunc}(quant_value) AS quant_value
-                FROM (
-                    /* 'quant_data' must be summed before pivot aggregation */
-                    SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
-                    FROM main.quant_data
-                    GROUP BY index_id, attr_data_id
-                )
-                JOIN temp.pivot_temp USING (attr_data_id)
-                GROUP BY index_id, pivot_attrs
-                ORDER BY index_id
-            """)
-
-            # Yield pivoted data rows.
-            with reader._node._managed_cursor() as node_cur:
-                # Assign `get` method to local var and define helper-lambda.
-                get_index = reader._node._dal.IndexRepository(node_cur).get
-                get_labels = lambda x: list(get_index(x).labels)
-
-                # Group by pre-sorted `index_id` and make pivoted rows.
-                for index_id, group in groupby(cur1, key=lambda row: row[0]):
-                    row_dict = {row[1]: row[2] for row in group}
-                    float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
-                    yield get_labels(index_id) + float_or_none_vals
 
-        finally:
-            cur1.execute('DROP TABLE temp.pivot_temp')
+        # Yield pivoted data rows.
+        with reader._node._managed_cursor() as node_cur:
+            # Assign `get` method to local var and define helper-lambda.
+            get_index = reader._node._dal.IndexRepository(node_cur).get
+            get_labels = lambda x: list(get_index(x).labels)
+
+            # Group by pre-sorted `index_id` and make pivoted rows.
+            for index_id, group in groupby(cur, key=lambda row: row[0]):
+                pivoted: Dict[str, List[float]] = {}
+                for _, attr_data_id, quant_value in group:
+                    if attr_data_id in pivot_lookup:
+                        values = pivoted.setdefault(pivot_lookup[attr_data_id], [])
+                        if quant_value is not None:
+                            values.append(quant_value)
+
+                if not pivoted:
+                    continue  # Skip to next if there's nothing to pivot.
+
+                row_dict = {k: (aggfunc(v) if v else None) for k, v in pivoted.items()}
+                float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
+                yield get_labels(index_id) + float_or_none_vals
 
 
 def pivot_reader_to_pandas(
-- 
2.43.0


From 2b87f5ddee5681426d8f8b383eab5425fc80ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 36/49] fix: data labelled as undefined matches the undefined
 index record

find_locations_without_index(), find_nonmatching_locations() and
count_nonmatching_locations() tested index ids for truth, so a location
whose only match is the undefined record (id 0) was reported--and its
quantities deleted--as having no index, although disaggregation assigns
those quantities to the undefined record.
---
 src/toron/data_service.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 886708b..edc0254 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -176,7 +176,8 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+        if next(index_ids, None) is None:  # Undefined record (0) is a match, too.
             yield location
 
 
@@ -209,7 +210,8 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+            if next(index_ids, None) is None:  # Undefined record (0) is a match, too.
                 yield location
 
 
@@ -237,7 +239,8 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+        nonmatching_index = next(index_ids, None) is None  # Undefined record (0) is a match, too.
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From 526d85f862498bdd7dfe0ce587317953ecf30a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 37/49] fix: refuse mapping values that are not non-negative
 numbers

SQLite compares text as greater than any number, so values like 'abc',
'5%' or '1,000' passed the check and were then loaded as 0.0, 5.0 and
1.0; and Mapper_OLD had no check at all (a negative value could cancel
out the value of another row). An empty value is accepted as before.
---
 src/toron/mapper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..c448a67 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -108,7 +108,10 @@ class Mapper(object):
                     node2_index_id INTEGER,
                     node2_location TEXT NOT NULL,
                     node2_level BLOB NOT NULL,
-                    mapping_value REAL CHECK (0.0 <= mapping_value)
+                    mapping_value REAL CHECK (
+                        mapping_value = ''
+                        OR (TYPEOF(mapping_value) = 'real' AND 0.0 <= mapping_value)
+                    )
                 );
                 CREATE TABLE node1_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_source(run_id),
@@ -476,7 +479,10 @@ class Mapper_OLD(object):
                     left_level BLOB_BITFLAGS NOT NULL,
                     right_location TEXT NOT NULL,
                     right_level BLOB_BITFLAGS NOT NULL,
-                    mapping_value REAL NOT NULL
+                    mapping_value REAL NOT NULL CHECK (
+                        mapping_value = ''
+                        OR (TYPEOF(mapping_value) = 'real' AND 0.0 <= mapping_value)
+                    )
                 );
                 CREATE TABLE left_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_data(run_id),
-- 
2.43.0


From 4ddf5ab6268a673b9fde0c353d684a68023fa3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 38/49] fix: count a record as matched only if its row matches
 both nodes

A mapping row that matched one node but was skipped for the other (no
label match, over the match limit, missing weight) produces no mapping,
but is_fully_matched() counted its record as matched, so a mapping that
left records unmapped was loaded without --allow-incomplete.
---
 src/toron/mapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index c448a67..06c2eb3 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -370,7 +370,11 @@ class Mapper(object):
             )
 
     def is_fully_matched(self) -> bool:
-        """Return True if all index_id records are matched."""
+        """Return True if all index_id records are matched.
+
+        A record counts as matched when it belongs to a mapping row
+        that also matches a record of the other node.
+        """
         with self.node1._managed_cursor() as node1_cur:
             index_repo = self.node1._dal.IndexRepository(node1_cur)
             node1_cardinality = index_repo.get_cardinality(include_undefined=False)
@@ -384,6 +388,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node1_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node2_matches)
             """)
             node1_match_count = cur.fetchone()[0]
 
@@ -391,6 +396,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node2_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node1_matches)
             """)
             node2_match_count = cur.fetchone()[0]
 
-- 
2.43.0


From df82e1115bbb45459a18a131be1d017fe8b326c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 39/49] fix: rename labels in the display order in
 legacy_rename_labels()

---
 src/toron/dal1/label_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..9720702 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_labels_in_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -210,6 +211,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
-- 
2.43.0


From 0c736d5afcc00accd12c418f1c23fead721ec379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 40/49] fix: roll back legacy column changes that are
 interrupted

---
 src/toron/dal1/label_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 9720702..87eaad1 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -215,8 +215,9 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
-            cursor.execute('ROLLBACK TRANSACTION')
+        except BaseException:  # <- Includes KeyboardInterrupt, etc.
+            if cursor.connection.in_transaction:
+                cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
         finally:
@@ -325,8 +326,9 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             schema.create_schema_constraints(cursor)
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
-            cursor.execute('ROLLBACK TRANSACTION')
+        except BaseException:  # <- Includes KeyboardInterrupt, etc.
+            if cursor.connection.in_transaction:
+                cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
         finally:
-- 
2.43.0


From 744e7ec241703b00aaf92a806b1f54386632fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:14 +0000
Subject: [PATCH 41/49] fix: refuse to translate data of records that no longer
 exist

---
 src/toron/reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 6708f6e..0c12c2e 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -359,10 +359,13 @@ class NodeReader(object):
                             continue  # Skip to next record.
 
                         # All other quantities are translated using mappings.
-                        rels = mapping_repo.find(
+                        rels = list(mapping_repo.find(
                             link_id=link_id,
                             other_index_id=index_id,
-                        )
+                        ))
+                        if not rels:
+                            # Record was deleted after the reader was made.
+                            raise RuntimeError(f'no mappings for index_id {index_id}')
 
                         items = ((rel.index_id, quant_value * rel.proportion)
                                  for rel in rels)
-- 
2.43.0


From b6d3d9b4a7ea2b3dd3fb5e64f983b79ea3da2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 42/49] fix: legacy column changes must not make ids of deleted
 records available

---
 src/toron/dal1/label_manager.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 87eaad1..b8bcf30 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -111,6 +111,23 @@ class LabelManager(BaseLabelManager):
         schema.create_schema_constraints(self._cursor)
 
 
+def _copy_index_id_sequence(cursor: sqlite3.Cursor) -> None:
+    """Copy AUTOINCREMENT counter from 'label_index' to 'new_label_index'.
+
+    A newly created table's counter only accounts for records that still
+    exist. Without this step, the ids of deleted records could be reused.
+    """
+    cursor.execute("""
+        UPDATE main.sqlite_sequence
+        SET seq = (
+            SELECT MAX(seq)
+            FROM main.sqlite_sequence
+            WHERE name IN ('label_index', 'new_label_index')
+        )
+        WHERE name='new_label_index'
+    """)
+
+
 def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
     """Rename label columns (for legacy SQLite versions).
 
@@ -175,6 +192,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            _copy_index_id_sequence(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
@@ -287,6 +305,7 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            _copy_index_id_sequence(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
-- 
2.43.0


From d51bbbc216ba1391443cf27617410e6e057fa01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 43/49] fix: finish a failed rollback of legacy column changes

---
 src/toron/dal1/data_connector.py | 1 +
 src/toron/dal1/label_manager.py  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 37c1ef6..54005cd 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -328,6 +328,7 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 # drive are rolled back when they get closed).
                 if self._in_memory_connection.in_transaction:
                     self._in_memory_connection.execute('ROLLBACK TRANSACTION')
+                self._in_memory_connection.execute('PRAGMA foreign_keys=ON')
                 self._rollback_pending = False
             return self._in_memory_connection
 
diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index b8bcf30..325caf8 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -235,7 +235,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
         except BaseException:  # <- Includes KeyboardInterrupt, etc.
             if cursor.connection.in_transaction:
-                cursor.execute('ROLLBACK TRANSACTION')
+                node._connector.transaction_rollback(cursor)
             raise  # Re-raise exception.
 
         finally:
@@ -347,7 +347,7 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
 
         except BaseException:  # <- Includes KeyboardInterrupt, etc.
             if cursor.connection.in_transaction:
-                cursor.execute('ROLLBACK TRANSACTION')
+                node._connector.transaction_rollback(cursor)
             raise  # Re-raise exception.
 
         finally:
-- 
2.43.0


From 86f7e13f452efd96b4d5787fefae9e9da32a223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:12 +0000
Subject: [PATCH 44/49] fix: close the data of a reader that could not be
 created

When creating a NodeReader failed, the generator of its data stayed
suspended for as long as the exception was referenced (in an interactive
session: until the next one), leaving the space inside its transaction or
its file locked.
---
 src/toron/space.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 59449e0..96912a7 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3,7 +3,7 @@
 import array
 import os
 from collections import Counter, defaultdict
-from contextlib import ExitStack, contextmanager, nullcontext
+from contextlib import ExitStack, closing, contextmanager, nullcontext
 from dataclasses import replace
 from itertools import chain, compress, groupby
 from logging import getLogger
@@ -3003,7 +3003,8 @@ class DataSpace(object):
             # is used to reduce selector matching during disaggregation.
 
         # Get disaggregated results generator.
-        data = self._disaggregate(quantize=quantize, selector_objs=selector_objs)
+        disaggregated = self._disaggregate(quantize=quantize, selector_objs=selector_objs)
+        data: Iterator[Tuple[int, AttributesDict, float]] = disaggregated
 
         # If *sum_by_attrs* is provided, only keep the specified attributes.
         if sum_by_attrs:
@@ -3024,13 +3025,15 @@ class DataSpace(object):
             # Note: Records are grouped and summed later--when iterating
             # over the returned `NodeReader` instance.
 
-        # Build and return a reader instance.
-        node_reader = NodeReader(
-            data=data,
-            node=self,
-            cache_to_drive=cache_to_drive,
-            quantize_default=quantize,
-        )
+        # Build and return a reader instance (if this fails, the generator
+        # must be closed or the space would remain in its transaction).
+        with closing(disaggregated):
+            node_reader = NodeReader(
+                data=data,
+                node=self,
+                cache_to_drive=cache_to_drive,
+                quantize_default=quantize,
+            )
         return node_reader
 
     def __repr__(self):
-- 
2.43.0


From 51d216683e6eca9a62edb05e930cadd542c0d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:47 +0000
Subject: [PATCH 45/49] fix: a failure to enable foreign keys must not fail
 committed legacy column changes

---
 src/toron/dal1/data_connector.py | 14 ++++++++++++++
 src/toron/dal1/label_manager.py  |  8 ++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 54005cd..b915997 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -373,6 +373,20 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
         finally:
             self._rollback_pending = cursor.connection.in_transaction
 
+    def enable_foreign_keys(self, cursor: sqlite3.Cursor) -> None:
+        """Enable foreign key enforcement (must be outside transaction).
+
+        If this fails, foreign keys are enabled when a connection is
+        next acquired.
+        """
+        try:
+            cursor.execute('PRAGMA foreign_keys=ON')
+        except Exception:
+            self._rollback_pending = True
+        except BaseException:  # <- Includes KeyboardInterrupt, etc.
+            self._rollback_pending = True
+            raise
+
     def transaction_commit(self, cursor: sqlite3.Cursor) -> None:
         """Commit the transaction."""
         cursor.execute('COMMIT TRANSACTION')
diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 325caf8..3378b97 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -7,10 +7,12 @@ from toron._typing import (
     Dict,
     Tuple,
     TYPE_CHECKING,
+    cast,
 )
 
 if TYPE_CHECKING:
     from toron import DataSpace
+    from .data_connector import DataConnector
 
 from . import schema
 from ..data_models import (
@@ -239,7 +241,8 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             raise  # Re-raise exception.
 
         finally:
-            cursor.execute('PRAGMA foreign_keys=ON')  # <- Must be outside transaction.
+            connector = cast('DataConnector', node._connector)
+            connector.enable_foreign_keys(cursor)  # <- Must be outside transaction.
 
 
 def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
@@ -351,4 +354,5 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             raise  # Re-raise exception.
 
         finally:
-            cursor.execute('PRAGMA foreign_keys=ON')  # <- Must be outside transaction.
+            connector = cast('DataConnector', node._connector)
+            connector.enable_foreign_keys(cursor)  # <- Must be outside transaction.
-- 
2.43.0


From 11423d3f2376eb1beb6fbd9e13918106a4ea6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:58 +0000
Subject: [PATCH 46/49] fix: finish a failed rollback of a reader's data

---
 src/toron/reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 0c12c2e..ccf956d 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -250,6 +250,7 @@ class NodeReader(object):
             connection.execute('PRAGMA main.synchronous = OFF')
         elif in_memory_connection:
             connection = in_memory_connection
+            connection.rollback()  # Finish a rollback that failed (if any).
         else:
             raise RuntimeError('unable to establish connection')
 
-- 
2.43.0


From d0c575f79f1aa1e73e30d7c5601821bccd5b25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:58 +0000
Subject: [PATCH 47/49] fix: commit a translation only after the reading of the
 target has ended

---
 src/toron/reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index ccf956d..a7a92b2 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -305,7 +305,8 @@ class NodeReader(object):
             old_index_hash = check_type(property_repo.get('index_hash'), str)
 
         # Translate "quant_data" table to use the index of the new *node*.
-        with ExitStack() as stack:
+        with self._managed_connection() as con, \
+                ExitStack() as stack:
             node_cur = stack.enter_context(node._managed_cursor())
 
             # Use a single transaction so that all of the mappings belong
@@ -321,8 +322,7 @@ class NodeReader(object):
                 other_index_hash=old_index_hash,
             )
 
-            with self._managed_connection() as con, \
-                    closing(con.cursor()) as cur1, \
+            with closing(con.cursor()) as cur1, \
                     closing(con.cursor()) as cur2:
                 cur1.execute('BEGIN TRANSACTION')
 
@@ -383,6 +383,9 @@ class NodeReader(object):
                 cur1.execute('DROP TABLE main.quant_data')
                 cur1.execute('ALTER TABLE main.new_quant_data RENAME TO quant_data')
 
+                # Finish with the new node (if this fails, nothing is changed).
+                stack.close()
+
                 # Commit changes and replace old node reference with the new
                 # node (restores the old reference if changes aren't saved).
                 old_node, old_columns = self._node, self._index_columns
-- 
2.43.0


From d870ce616ceb2f916bc9c2dc116d1936fd2f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:38 +0000
Subject: [PATCH 48/49] fix: describe ambiguous fields beyond the eighth label
 column

---
 src/toron/cli/command_mapping.py | 4 +++-
 src/toron/graph.py               | 5 ++++-
 src/toron/space.py               | 9 +++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 44be2e0..431e1cd 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -10,6 +10,7 @@ from itertools import (
     chain,
     compress,
     islice,
+    repeat,
 )
 from .._typing import (
     Callable,
@@ -460,7 +461,8 @@ def get_ambiguous_field_text(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    level_bits = chain(BitFlags(mapping_level), repeat(0))  # Trailing zeros are not stored.
+    inverted_level = [(not bit) for _, bit in zip(label_names, level_bits)]
     ambiguous_fields = compress(label_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/graph.py b/src/toron/graph.py
index aaf7c4b..8f3979e 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -7,9 +7,11 @@ from json import (
     loads as _loads,
 )
 from itertools import (
+    chain,
     compress,
     groupby,
     product,
+    repeat,
 )
 from ._typing import (
     Dict,
@@ -410,7 +412,8 @@ def _get_ambiguous_fields(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    level_bits = chain(BitFlags(mapping_level), repeat(0))  # Trailing zeros are not stored.
+    inverted_level = [(not bit) for _, bit in zip(column_names, level_bits)]
     ambiguous_fields = compress(column_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/space.py b/src/toron/space.py
index 96912a7..e0a25be 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -5,7 +5,7 @@ import os
 from collections import Counter, defaultdict
 from contextlib import ExitStack, closing, contextmanager, nullcontext
 from dataclasses import replace
-from itertools import chain, compress, groupby
+from itertools import chain, compress, groupby, repeat
 from logging import getLogger
 from math import isnan, isinf
 from pprint import pformat
@@ -1753,9 +1753,10 @@ class DataSpace(object):
                     for rel in chain([next(mappings)], mappings):
                         if rel.mapping_level:
                             # Build a description of any columns that were
-                            # left unspecified in the original mapping.
-                            bit_flags = BitFlags(rel.mapping_level)
-                            inverted_bits = [(not bit) for bit in bit_flags]
+                            # left unspecified in the original mapping
+                            # (trailing zeros are not stored in the level).
+                            bit_flags = chain(BitFlags(rel.mapping_level), repeat(0))
+                            inverted_bits = [(not bit) for _, bit in zip(label_columns, bit_flags)]
                             ambiguous_labels = compress(label_columns, inverted_bits)
                             ambiguous_desc = ', '.join(ambiguous_labels) or None
                         else:
-- 
2.43.0


From cb78480637034c23ec01b7b4e6b6dfd04cc0c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:38 +0000
Subject: [PATCH 49/49] fix: load a mapping into a space whose structure has no
 granularity

---
 src/toron/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index 06c2eb3..d5b6f44 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -573,7 +573,8 @@ class Mapper_OLD(object):
              (b'\x20', None)]
         """
         # Build dictionary with bytes (keys) and granularity (values).
-        make_item = lambda x: (bytes(BitFlags(x.bits)), x.granularity)
+        get_value = lambda x: x.granularity if x.granularity is not None else -1
+        make_item = lambda x: (bytes(BitFlags(x.bits)), get_value(x))
         granularity_items = (make_item(x) for x in node_structures)
         granularity_dict = {k: v for k, v in granularity_items if k != b''}
 
-- 
2.43.0

