From 882f4fa4a025a8be9e13c625003f3490f478f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 01/17] fix: reject circular module imports instead of looping
 forever

---
 asn1_parser/generators/cfs/module_sorter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index 0bf9274..1244faf 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -87,6 +87,7 @@ class ModuleSorter:
         ]
         import_names: List[str] = ModuleSorter._get_import_names(module_list)
         while len(module_list):
+            remaining: int = len(module_list)
             for module_index, module_name in enumerate(module_names):
                 if module_name not in import_names:
                     module_to_reorder = module_list[module_index]
@@ -97,6 +98,11 @@ class ModuleSorter:
                     # Regenerate import_list, to omit
                     # the file that we just reordered
                     import_names = ModuleSorter._get_import_names(module_list)
+            if len(module_list) == remaining:
+                raise ValueError(
+                    f"The modules {', '.join(sorted(module_names))} import "
+                    f"each other in a circle."
+                )
         return module_order
 
     @staticmethod
-- 
2.43.0


From 9ab00ddfe7895ece03a74af29569d793c3df71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 02/17] fix: reject recursive type definitions instead of
 looping forever

---
 asn1_parser/generators/cfs/module_sorter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index 1244faf..c4f13c8 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -40,6 +40,7 @@ class ModuleSorter:
             Definitions
         ] = asn1_module.get_definitions().copy()
         while len(not_yet_defined) > 0:
+            remaining: int = len(not_yet_defined)
             # copy(): do not modify something we iterate on
             for definition in not_yet_defined.copy():
                 if isinstance(definition, (Sequence, Choice)):
@@ -73,6 +74,14 @@ class ModuleSorter:
                     raise NotImplementedError(
                         f"{definition} (of type {type(definition)})"
                     )
+            if len(not_yet_defined) == remaining:
+                unresolved = ", ".join(
+                    definition.get_type_name() for definition in not_yet_defined
+                )
+                raise ValueError(
+                    f"The types {unresolved} of module "
+                    f"'{asn1_module.get_module_name()}' contain each other."
+                )
 
         return already_defined
 
-- 
2.43.0


From a0260541893612c7bd4f98e04825e5937d1611c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 03/17] fix: include the header files of imported modules with
 their .h suffix

---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From cd16b6d29b3613f761e034ac390da3460f637b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 04/17] fix: COSMOS booleans without a fixed value are not
 identifiers

---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 8d57638f0f033c2eb54e5d6bda75b3b6e7bab2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 05/17] fix: COSMOS generation of an APID field without a fixed
 value

---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..ec728dc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From b558f4dead2f3102b6b033faef52f823e12f9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 06/17] fix: COSMOS generation does not leak fixed values
 between messages

---
 asn1_parser/generators/cosmos/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ec728dc..4eeaa30 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,7 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 7be3ed6f8d9eb1acd737f5db082998a38a61bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 07/17] fix: signed integers are generated with the size of
 their range

---
 asn1_parser/generators/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..756f7d6 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,10 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type == "int":
+                is_stdint_needed = True
+                valid_c_type = valid_c_type + str(bit_size) + "_t"
+            elif valid_c_type == "uint":
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From 71254abed3c85734c9c823698dd13021a062476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 08/17] fix: reject ENUMERATED positions outside of the range
 that sum up to zero

---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..1135c02 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if not any(e.get_pos() for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 1bc40feffc75290954b92e859a0d78d25303fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 09/17] fix: types with a single value are generated with one
 bit instead of none

---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..fa9eb6f 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, at least one bit is needed
+        return max(1, last_value.bit_length())
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..dc3e044 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,8 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, at least one bit is needed
+        bitsize = max(1, end.bit_length())
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 328a91a1dbc93e9fed36e2c92025e132303971fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 10/17] fix: reject unsigned integers that do not fit into 64
 bits

---
 asn1_parser/utils/size.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index dc3e044..ffb1c09 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -42,6 +42,8 @@ def get_bit_size(
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
         # int.bit_length() is a Python builtin, at least one bit is needed
         bitsize = max(1, end.bit_length())
+        if bitsize > 64:
+            raise ValueError(f"{end} is out of stdint definition.")
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 54397b79fc939f65f93dc262c092c9b97478021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 11/17] fix: BOOLEAN simple definitions are generated like
 inline BOOLEANs

---
 asn1_parser/generators/generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 756f7d6..d22ca06 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,12 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "int":
+            if valid_c_type == "bool":
+                # same encoding as a BOOLEAN without a simple definition
+                bit_length = " : 1"
+                valid_c_type = "uint8_t"
+                is_stdint_needed = True
+            elif valid_c_type == "int":
                 is_stdint_needed = True
                 valid_c_type = valid_c_type + str(bit_size) + "_t"
             elif valid_c_type == "uint":
-- 
2.43.0


From 7769440c5f524dfdab83918a63f8557b7f095c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 12/17] fix: keep the bytes of every WITH COMPONENTS member in
 the binary image

---
 asn1_parser/c_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..fed7841 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -83,8 +83,8 @@ class CData:
         self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
-        # TODO prevent overriding existing keys
-        self._binary_init.update(other_cdata.get_binary_init())
+        for key, binary_init_list in other_cdata.get_binary_init().items():
+            self._binary_init.setdefault(key, []).extend(binary_init_list)
 
     def add_data(self, data_string: str) -> None:
         self._data.append(data_string)
-- 
2.43.0


From 350e2587ee2ac2ee6d629f35a0e305a917dd216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 13/17] fix: reject CCSDS header values that overflow into
 neighbouring MID fields

---
 asn1_parser/generators/cfs/generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index b981955..b9309c9 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -182,6 +182,18 @@ class CFSGenerator(Generator):
                     bit_type = 1
                     bit_hdr_flag = 1
                     bit_pr_id = 11
+                    bit_lengths = {
+                        ASN1_KEY_CCSDS_VERSION: bit_pkt_v,
+                        ASN1_KEY_CCSDS_TYPE: bit_type,
+                        ASN1_KEY_CCSDS_SEC_HEADER_FLAG: bit_hdr_flag,
+                        ASN1_KEY_CCSDS_APID: bit_pr_id,
+                    }
+                    bit_length = bit_lengths.get(inner_key, id_len)
+                    if not 0 <= inner_value < (1 << bit_length):
+                        raise ValueError(
+                            f"The value {inner_value} of '{inner_key}' does "
+                            f"not fit into {bit_length} bits."
+                        )
 
                     if inner_key == ASN1_KEY_CCSDS_VERSION:
                         tmtc_id = tmtc_id | (
-- 
2.43.0


From 76e135d8db1ebf5f7647588fb4263e51838d6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 14/17] fix: COSMOS generation rejects bundles with duplicated
 module names

---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..716b4c3 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -166,6 +167,7 @@ class ASN1BundleBuilder:
             GenerateCFSCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
+            GenerateCosmosCommandConfig,
         ],
     ) -> None:
         error_message: str = ""
-- 
2.43.0


From f4fd9b4847f099bcfa396bab4160a2b83b004c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:22 +0000
Subject: [PATCH 15/17] fix: keep the include of a C file when later types have
 no fixed values

---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index fed7841..fbef309 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         for key, binary_init_list in other_cdata.get_binary_init().items():
-- 
2.43.0


From 6d63dfec4f6dd030762d05c9f007a327e29d7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:21 +0000
Subject: [PATCH 16/17] fix: reject comments that end a comment or string of
 the generated files

---
 asn1_parser/asn1/processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 1135c02..8d4d25b 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -255,7 +255,9 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
-    not_allowed = ["[", "]", "--"]
+    # the last ones would end a C comment, a COSMOS description or continue a
+    # C line comment on the next line
+    not_allowed = ["[", "]", "--", "*/", '"', "\\"]
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0


From 2157238517ae426d5cb035ed4f6d7333bd0efc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:42 +0000
Subject: [PATCH 17/17] fix: write no file before every module of the bundle
 has been converted

A value that cannot be generated in a later module left the files of the
earlier modules behind.
---
 asn1_parser/generators/binary/generator.py | 5 +++++
 asn1_parser/generators/c/generator.py      | 5 +++++
 asn1_parser/generators/cfs/generator.py    | 9 +++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..1c26ccb 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -81,6 +81,7 @@ class BinaryGenerator(Generator):
             pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        module_cdata_list: List[CData] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -155,6 +156,10 @@ class BinaryGenerator(Generator):
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+            module_cdata_list.append(module_cdata)
+
+        # nothing is written before every module has been converted
+        for module, module_cdata in zip(module_list_ordered, module_cdata_list):
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..408172b 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -36,6 +36,7 @@ class CGenerator(Generator):
             pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        module_cdata_list: List[CData] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -109,6 +110,10 @@ class CGenerator(Generator):
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+            module_cdata_list.append(module_cdata)
+
+        # nothing is written before every module has been converted
+        for module, module_cdata in zip(module_list_ordered, module_cdata_list):
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index b9309c9..cbf0bf2 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -55,6 +55,7 @@ class CFSGenerator(Generator):
             pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
+        module_cdata_list: List[CData] = []
 
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
@@ -141,13 +142,17 @@ class CFSGenerator(Generator):
                         + "implemented."
                     )
 
-            c_printer: CPrinter = CPrinter()
-
             comment = module.get_comment()
             file_documentation = comment and comment.get_comment()
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+            module_cdata_list.append(module_cdata)
+
+        c_printer: CPrinter = CPrinter()
+
+        # nothing is written before every module has been converted
+        for module, module_cdata in zip(module_list_ordered, module_cdata_list):
             # generate one xx_msg.h file per module
             filename_msg = cls.get_msg_filename(module)
             c_printer.print_to_file(
-- 
2.43.0

