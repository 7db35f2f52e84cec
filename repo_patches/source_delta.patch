From 2086abe9bccedf4caadb79dda3002adda28630ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 01/96] fix: forget a removed site's sectors so that the site
 can be added again

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..6bf0a48 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From 9630ef5ebf0f5f86d2d6ea4b15974d8e696db228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 02/96] fix: look up the incoming link when listing wireless
 predecessors

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 6bf0a48..301531d 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -310,7 +310,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From 4323db8325f3af8b2915d5a1b9ecc4d4cf402298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 03/96] fix: keep the longitude of a location on the
 antimeridian in its valid range

---
 terragraph_planner/common/geos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/geos.py b/terragraph_planner/common/geos.py
index aa23c4a..3802906 100644
--- a/terragraph_planner/common/geos.py
+++ b/terragraph_planner/common/geos.py
@@ -135,9 +135,14 @@ class GeoLocation:
         utm_to_ll = TransformerLib.get_tranformer(
             crs_from=none_throws(self._utm_epsg), crs_to=LAT_LON_EPSG
         )
-        self._longitude, self._latitude = utm_to_ll.transform(
+        longitude, self._latitude = utm_to_ll.transform(
             self._utm_x, self._utm_y
         )
+        # On the antimeridian, the round-off of the transformation can result
+        # in a longitude which is slightly out of the valid range
+        self._longitude = min(
+            STRAIGHT_ANGLE, max(-STRAIGHT_ANGLE, longitude)
+        )
 
     def _reset_lat_lon(self) -> None:
         self._latitude = None
-- 
2.43.0


From 6217422532b77f4e32f9a642ca6995d25e914650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 04/96] fix: compare all the attributes of two config objects

The comparison stopped at the first attribute that is None, an enum or an
object, ignored the length of the lists and sorted them in place.
---
 .../common/configuration/configs.py               | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..31e7b36 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -149,17 +149,12 @@ class ConfigParser:
         if isinstance(other, self.__class__):
             for key, value in self.__dict__.items():
                 other_value = other.__dict__[key]
-                if isinstance(value, (int, float, tuple, str)):
-                    if value != other_value:
+                if isinstance(value, list) and isinstance(other_value, list):
+                    # The order of the items doesn't matter
+                    if sorted(value) != sorted(other_value):
                         return False
-                elif isinstance(value, list):
-                    value.sort()
-                    other_value.sort()
-                    for i in range(len(value)):
-                        if not value[i].__eq__(other_value[i]):
-                            return False
-                else:
-                    return value.__eq__(other_value)
+                elif value != other_value:
+                    return False
             return True
         else:
             return NotImplemented
-- 
2.43.0


From f97a979cef402c99844a66663eb6a95029ca5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 05/96] fix: serialize only the arguments of a config object

Sector parameters with antenna or scan pattern data could not be converted
to a dict, as the loaded data is not an argument.
---
 terragraph_planner/common/configuration/configs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 31e7b36..464d9db 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -55,7 +55,10 @@ class ConfigParser:
         @return: dict of args used in __init__
         """
         func_arg_val = {}
+        args = set(getfullargspec(self.__init__).args)
         for key in self.__dict__:
+            if key not in args:
+                continue
             value = getattr(self, key)
             if isinstance(value, (str, int, float)) or value is None:
                 func_arg_val[key] = value
@@ -64,7 +67,7 @@ class ConfigParser:
                 for obj in value:
                     if isinstance(obj, ConfigParser):
                         obj_list.append(obj.to_dict())
-                    elif isinstance(value, EnumParser):
+                    elif isinstance(obj, EnumParser):
                         obj_list.append(obj.to_string())
                     elif isinstance(obj, (str, int, float)):
                         obj_list.append(obj)
-- 
2.43.0


From 2cc44946d710e907a575ddc1b34104f7574b7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 06/96] fix: let a device without sector parameters use the
 default ones

The config template promises defaults for every device field but the SKU.
---
 terragraph_planner/common/configuration/configs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 464d9db..2e6bb1f 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -285,7 +285,7 @@ class DeviceData(ConfigParser):
     def __init__(
         self,
         device_sku: str,
-        sector_params: SectorParams,
+        sector_params: Optional[SectorParams] = None,
         node_capex: float = 250.0,
         number_of_nodes_per_site: Optional[int] = None,
         device_type: DeviceType = DeviceType.DN,
@@ -305,6 +305,8 @@ class DeviceData(ConfigParser):
             "Number of nodes per site must be in at least 1",
             ConfigException,
         )
+        if sector_params is None:
+            sector_params = SectorParams()
         self.device_sku = device_sku
         self.sector_params = sector_params
         self.node_capex = node_capex
-- 
2.43.0


From ff727bc051e868b65f91ac452d3552523628f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 07/96] fix: find the tx_backoff column of an MCS table like
 the other columns

The column was looked up by its exact name while the others may be part of a
longer column name, so a table with a longer name was refused.
---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..64946e7 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -396,7 +396,7 @@ def read_mcs_snr_mbps_map_data(
     # Add column TX_BACKOFF if not exist with all values set to 0
     default_tx_backoff = "0"
     column_name_row = [name.casefold().strip() for name in raw_data[0]]
-    if TX_BACKOFF not in column_name_row:
+    if not any(TX_BACKOFF in name for name in column_name_row):
         column_name_row.append(TX_BACKOFF)
         raw_data[0].append(TX_BACKOFF)
         for i in range(1, len(raw_data)):
-- 
2.43.0


From 8458c130e32ee5f3cef1bcbb3bb99a04c1400ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 08/96] fix: let a blank device SKU in a CSV site file mean all
 the matching devices

That is what the multi-SKU documentation says; a blank cell was looked up as
a SKU of its own and the file was refused.
---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 64946e7..c444e6e 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -197,7 +197,7 @@ def load_input_sites_from_csv_file(
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-- 
2.43.0


From df6e717d234df8ee67a0851b7e691d3d98a40a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 09/96] fix: read blank altitudes and heights of a CSV site
 file as not given

A blank cell made the whole column a column of strings, which were used as
the altitudes.
---
 terragraph_planner/common/data_io/csv_library.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index c444e6e..03b69a3 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -151,6 +151,16 @@ def load_csv_and_validate(
                 df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
                     row[SiteKey.NUMBER_OF_SUBSCRIBERS]
                 )
+        for key in (SiteKey.ALTITUDE, SiteKey.HEIGHT):
+            if key in row and isinstance(row[key], str):
+                try:
+                    df.loc[idx, key] = (
+                        float(row[key]) if row[key].strip() != "" else None
+                    )
+                except ValueError:
+                    raise DataException(
+                        f"Invalid {key.value.output_name.lower()} {row[key]}."
+                    )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
-- 
2.43.0


From f36db3db9c703f108c30d48c4e0f5e94f43eb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 10/96] fix: read fractional confidence levels from a KML
 topology

isdecimal() is false for any number with a decimal point, so the confidence
level written by the planner was dropped when the file was read.
---
 terragraph_planner/common/data_io/kml_library.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..8f1a375 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -141,12 +141,14 @@ def extract_links(
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
+        try:
+            confidence_level = float(confidence_level)
+        except ValueError:
+            confidence_level = None
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=confidence_level,
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From 2c68f25166a5d8afa6e1eac10eb2a671436af2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 11/96] fix: match a KML link without site names by its end
 points

The names were read as empty strings, so the documented search for the sites
within 10 meters of the end points never happened and the link was refused.
---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 terragraph_planner/common/structs.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 8f1a375..015ec41 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -149,10 +149,10 @@ def extract_links(
             status_type=status_type,
             link_type=link_type,
             confidence_level=confidence_level,
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
diff --git a/terragraph_planner/common/structs.py b/terragraph_planner/common/structs.py
index 4fdd8b6..3f06aa9 100644
--- a/terragraph_planner/common/structs.py
+++ b/terragraph_planner/common/structs.py
@@ -83,10 +83,10 @@ class RawLink(NamedTuple):
     link_type: LinkType
     status_type: StatusType
     confidence_level: Optional[float]
-    tx_site_name: str
+    tx_site_name: Optional[str]
     tx_latitude: float
     tx_longitude: float
-    rx_site_name: str
+    rx_site_name: Optional[str]
     rx_latitude: float
     rx_longitude: float
 
-- 
2.43.0


From 3d69cd685c317f2c7d8d6128ce0342dd2647323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 12/96] fix: accept rooftop sites without building id in a
 candidate topology

The topology files written by the planner have the location type but not the
building id, so a candidate topology with a rooftop site could not be read.
---
 terragraph_planner/common/data_io/input_sites_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..9d900c9 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,8 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From 79f9bf8f44c67e5fd552c2df069abb487f06a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 13/96] fix: refuse site names which clash with a name extended
 by its device SKU

Two sites ended up with the same name, and the links given by that name were
connected to either of them.
---
 terragraph_planner/common/data_io/input_sites.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/input_sites.py b/terragraph_planner/common/data_io/input_sites.py
index dbd9162..623950b 100644
--- a/terragraph_planner/common/data_io/input_sites.py
+++ b/terragraph_planner/common/data_io/input_sites.py
@@ -99,10 +99,19 @@ class InputSites(abc.Sized, abc.Iterable):
         if len(self._site_name_to_device_skus[site.name]) > 1:
             self._append_device_sku_to_site_name(site)
         else:  # That's the first site with this site name. Then no need to append device_sku
+            self._validate_unused_name(site.name)
             self._site_name_to_site[site.name] = site
 
     def _append_device_sku_to_site_name(self, site: Site) -> None:
         if site.name in self._site_name_to_site:
             del self._site_name_to_site[site.name]
-        site.name = f"{site.name}_{site.device.device_sku.casefold()}"
+        new_name = f"{site.name}_{site.device.device_sku.casefold()}"
+        self._validate_unused_name(new_name)
+        site.name = new_name
         self._site_name_to_site[site.name] = site
+
+    def _validate_unused_name(self, name: str) -> None:
+        if name in self._site_name_to_site:
+            raise DataException(
+                f"Site name {name} is also the name of another site with its device sku appended"
+            )
-- 
2.43.0


From 3d827c2f9640f0342437ea437db7ef779506ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 14/96] fix: read the location type of the sites in a CSV file

The documented location_type column was ignored, and a building id was kept as
a string which no site of unknown location type accepts.
---
 terragraph_planner/common/data_io/csv_library.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 03b69a3..9be7331 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -204,6 +204,13 @@ def load_input_sites_from_csv_file(
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
             continue
+        location_type_str = site_row.get(SiteKey.LOCATION_TYPE, "").upper()
+        location_type = (
+            LocationType[location_type_str]
+            if location_type_str in LocationType.__members__
+            else LocationType.UNKNOWN
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
@@ -213,8 +220,10 @@ def load_input_sites_from_csv_file(
             longitude=longitude,
             altitude=site_row.get(SiteKey.ALTITUDE, None),
             height=site_row.get(SiteKey.HEIGHT, None),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From f32c1b611fdcea648acfdd0eaa1c0b6c12d557df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 15/96] fix: recognize the field "number of demand sites" of a
 KML site file

The KML driver replaces the spaces of a field name with underscores, so the
documented name never matched.
---
 docs/runbook/Input_Files.md                   | 2 +-
 terragraph_planner/common/data_io/data_key.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/docs/runbook/Input_Files.md b/docs/runbook/Input_Files.md
index 9b13573..63f6f40 100644
--- a/docs/runbook/Input_Files.md
+++ b/docs/runbook/Input_Files.md
@@ -100,7 +100,7 @@ for CSV input. The following table describes all the possible attributes.
 | name                  | name, site_name, site name, pole_name                                                                                                                                                                                 |
 | site_type             | type, site_type, site type                                                                                                                                                                                            |
 | device_sku            | sku, device_sku, device sku                                                                                                                                                                                           |
-| number_of_subscribers | number_of_demand_points, number of demand points, num_demand_points, number_of_subscribers, number of subscribers, number of demand sites, num_demand_sites, demand_points, demand points, demand_sites, demand sites |
+| number_of_subscribers | number_of_demand_points, number of demand points, num_demand_points, number_of_subscribers, number of subscribers, number_of_demand_sites, number of demand sites, num_demand_sites, demand_points, demand points, demand_sites, demand sites |
 | location_type         | location type, location_type                                                                                                                                                                                          |
 
 1. All the `Acceptable Names` are case-insensitive
diff --git a/terragraph_planner/common/data_io/data_key.py b/terragraph_planner/common/data_io/data_key.py
index 96ada96..87f864b 100644
--- a/terragraph_planner/common/data_io/data_key.py
+++ b/terragraph_planner/common/data_io/data_key.py
@@ -111,6 +111,7 @@ class SiteKey(BaseDataKey):
             "num_demand_points",
             "number_of_subscribers",
             "number of subscribers",
+            "number_of_demand_sites",
             "number of demand sites",
             "num_demand_sites",
             "demand_points",
-- 
2.43.0


From 5190ef039fde28c8a910685c381619c065b333bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 16/96] fix: keep the text columns of a CSV file as written

A column of all-digit names was read as numbers, so that "007" became "7".
---
 .../common/data_io/csv_library.py             | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 9be7331..f603ced 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -84,8 +84,26 @@ def load_csv_and_validate(
     df = pd.DataFrame()
     # Read file
     try:
+        header = pd.read_csv(
+            csv_file_path, header=0, nrows=0, encoding="utf-8-sig"
+        )
+        # Keep the text columns as written, e.g. the name "007"
+        text_cols = {
+            name
+            for key in input_key_list
+            if key not in NUMERIC_KEYS
+            for name in key.value.possible_input_names
+        }
         df = pd.read_csv(
-            csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig"
+            csv_file_path,
+            header=0,
+            keep_default_na=False,
+            encoding="utf-8-sig",
+            dtype={
+                col: str
+                for col in header.columns
+                if col.strip().casefold() in text_cols
+            },
         )
     except Exception:
         planner_assert(
-- 
2.43.0


From 6e220ac6cfbc2dd83475106da3cf4f5aed0f7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 17/96] fix: escape the topology name in a KML file

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..ebfaeaa 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From dae0e93f8fd4e10103928735401b73412a2c47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 18/96] fix: write demand sites without a demand next to others
 to KML

---
 terragraph_planner/common/data_io/topology_serializer.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index ebfaeaa..2871d9d 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -11,8 +11,6 @@ from time import time
 from typing import Dict, List, Optional, Set, Tuple, Union
 from xml.sax.saxutils import escape
 
-from pyre_extensions import none_throws
-
 from terragraph_planner.common.configuration.enums import (
     DebugFile,
     LinkType,
@@ -405,11 +403,7 @@ def _add_demands(
         for site_id, site_data in topology.demand_sites.items():
             # Linear color mapping
             scale = (
-                int(
-                    none_throws(site_data.demand)
-                    / max_demand
-                    * len(DEMAND_COLORS)
-                )
+                int((site_data.demand or 0) / max_demand * len(DEMAND_COLORS))
                 if len(demand_values) > 1
                 else 0
             )  # Uniform demand, use normal color
-- 
2.43.0


From 4271c2b2c0f399e0f4b96640dabe4c056da962d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 19/96] fix: accept an upper-case extension of a candidate
 topology KML file

---
 terragraph_planner/common/data_io/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index 2f9e40b..df752ee 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -277,9 +277,7 @@ def extract_topology_from_file(
         ]
     ],
 ) -> Topology:
-    if topology_file_path.endswith(".kml") or topology_file_path.endswith(
-        ".kmz"
-    ):
+    if topology_file_path.casefold().endswith((".kml", ".kmz")):
         return extract_topology_from_kml_file(
             topology_file_path, device_list, infer_input_site_location
         )
-- 
2.43.0


From 680432ffcea823da47c0659c6b2d45226b2af7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 20/96] fix: take the type of a KML link from its folder when
 it has no link type

Links in an ETHERNET folder were read as wireless backhaul links.
---
 terragraph_planner/common/data_io/kml_library.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 015ec41..de821dd 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -133,10 +133,11 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
+        # The folder gives the link type unless the link has its own
+        feature_link_type = (
             LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+            else link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
@@ -147,7 +148,7 @@ def extract_links(
             confidence_level = None
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=feature_link_type,
             confidence_level=confidence_level,
             tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
-- 
2.43.0


From fbb9a0dc830ae952da67283ae2253044c9678766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 21/96] fix: read the collection time of a GeoTIFF

A GeoTIFF with a TIFFTAG_DATETIME tag raised a TypeError.
---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From 404a38e23e5b10ea206c486e8992ec0d82994c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 22/96] fix: fill a void cell from its center, not from the
 first point looked up

The filled value is kept for the whole cell, so that it depended on the
order of the look-ups.
---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..1148555 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -135,7 +135,9 @@ class Elevation(GISData):
             if self.data_matrix[idx_y, idx_x] == NO_DATA_VALUE:
                 self.data_matrix[
                     idx_y, idx_x
-                ] = self.find_closest_valid_elevation([(x, y)])[0]
+                ] = self.find_closest_valid_elevation(
+                    [self.idx_to_utm(idx_x, idx_y)]
+                )[0]
             return self.data_matrix[idx_y, idx_x]
         raise DataException("get_value() error: out of index")
 
-- 
2.43.0


From 0aa4edab969370f22c908ec8275d1c1af9de4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 23/96] fix: do not wrap around the left and top edges of an
 elevation matrix

---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 1148555..f467b6d 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -263,8 +263,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # A negative index would count from the opposite side of the matrix
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From b1c71b2a8f82b2fd73958b3e26c05ec9829c340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 24/96] fix: keep void cells void when adding or subtracting
 elevations

The no-data value was added to or subtracted from the other elevation.
---
 terragraph_planner/los/elevation.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index f467b6d..70bccb3 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -285,10 +285,21 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _void_in_either(
+        self, other_geogrids: "Elevation"
+    ) -> npt.NDArray[np.bool_]:
+        return (self.data_matrix == NO_DATA_VALUE) | (
+            other_geogrids.data_matrix == NO_DATA_VALUE
+        )
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                np.where(
+                    self._void_in_either(other_geogrids),
+                    NO_DATA_VALUE,
+                    self.data_matrix + other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -306,7 +317,11 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                np.where(
+                    self._void_in_either(other_geogrids),
+                    NO_DATA_VALUE,
+                    self.data_matrix - other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From c8de84ba734a067766a81155c1a346e363282b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 25/96] fix: rooftop sites on unknown buildings are not on the
 same building

---
 terragraph_planner/los/base_los_validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..8a2353d 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -109,6 +112,7 @@ class BaseLOSValidator(ABC):
             == site2.location_type
             == LocationType.ROOFTOP.value
             and site1.building_id == site2.building_id
+            and site1.building_id != UNKNOWN_BUILDING_ID
         )
 
     def _los_out_of_distance_range(self, distance: float) -> bool:
-- 
2.43.0


From b32fd775ee563f2d245befbb36f68dbe7eaad250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 26/96] fix: reuse LOS results only between sites that agree in
 all that matters

---
 terragraph_planner/los/helper.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..c75c4c7 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,13 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 13849ee86eb425e8477e50fc473b19dd06672c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 27/96] fix: connect new sites to the sites of the base
 topology

---
 terragraph_planner/los/helper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index c75c4c7..0aba3a9 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -894,7 +894,8 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
-                site_map[site_idx] = [site]
+            # It may be a site of the base topology already
+            site_map[site_idx] = [topology.sites[site.site_id]]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
@@ -946,6 +947,9 @@ def add_links_to_topology(
                             (tx_site_idx, rx_site_idx)
                         ],
                     )
+                    # Never replace the links of the base topology
+                    if link.link_id in topology.links:
+                        continue
                     if (
                         min_los_dist
                         <= link.distance
-- 
2.43.0


From c93ee15b3f4c1657187212680afdfe7e7eab0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 28/96] fix: ignore the cell of an end site in the whole
 Fresnel zone computation

---
 terragraph_planner/los/fresnel_zone.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/los/fresnel_zone.py b/terragraph_planner/los/fresnel_zone.py
index 2e8b6e2..86fa855 100644
--- a/terragraph_planner/los/fresnel_zone.py
+++ b/terragraph_planner/los/fresnel_zone.py
@@ -59,6 +59,9 @@ class FresnelZone:
     # D in meter and f in MHz
     FIRST_ZONE_MULTIPLIER = 8.65725790883
 
+    # In meters
+    SAME_POSITION_TOLERANCE = 1e-6
+
     def __init__(
         self,
         site1: LOSSite,
@@ -132,9 +135,7 @@ class FresnelZone:
         and the height z is within or greater than the height of the ellipsoid.
         """
         x, y, z = point
-        if (x == self._site1.utm_x and y == self._site1.utm_y) or (
-            x == self._site2.utm_x and y == self._site2.utm_y
-        ):
+        if self._is_at_end_site(x, y):
             return False
 
         if self._los_confidence_threshold == 0:
@@ -160,6 +161,9 @@ class FresnelZone:
                the closest distance to the obstruction is where the height(z) is equal
         """
         x, y, z = point
+        if self._is_at_end_site(x, y):
+            return self._outer_fresnel_radius
+
         height = self._solve_for_lower_ellipsoid_height(
             x, y, self._outer_fresnel_radius_sq
         )
@@ -173,6 +177,16 @@ class FresnelZone:
             return self._solve_for_max_fresnel_radius_2d(x, y)
         return self._solve_for_max_fresnel_radius_3d(x, y, z)
 
+    def _is_at_end_site(self, x: float, y: float) -> bool:
+        """
+        Return True if the point is at one of the end sites, up to rounding errors.
+        """
+        return any(
+            abs(x - site.utm_x) <= FresnelZone.SAME_POSITION_TOLERANCE
+            and abs(y - site.utm_y) <= FresnelZone.SAME_POSITION_TOLERANCE
+            for site in (self._site1, self._site2)
+        )
+
     def _get_equation_constants(self) -> None:
         """
         Compute all the constant parameters in the 3 equations for the Fresnel Zone.
-- 
2.43.0


From 28608cef6e90e4590e512c8d64116126a9295a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 29/96] fix: no line of sight when the ellipsoidal confidence
 is below the threshold

---
 terragraph_planner/los/ellipsoidal_los_validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/ellipsoidal_los_validator.py b/terragraph_planner/los/ellipsoidal_los_validator.py
index 37c1d53..3612997 100644
--- a/terragraph_planner/los/ellipsoidal_los_validator.py
+++ b/terragraph_planner/los/ellipsoidal_los_validator.py
@@ -83,4 +83,7 @@ class EllipsoidalLOSValidator(BaseLOSValidator):
             fresnel_radius = fresnel_zone.get_max_fresnel_radius(obstruction)
             min_fresnel_radius = min(fresnel_radius, min_fresnel_radius)
 
-        return min_fresnel_radius / fresnel_zone.fresnel_radius
+        confidence = min_fresnel_radius / fresnel_zone.fresnel_radius
+        # On steep links, an obstruction may be in the inner Fresnel zone while
+        # it's out of the inner ellipse on the xy plane
+        return confidence if confidence >= self._los_confidence_threshold else 0.0
-- 
2.43.0


From af867b97d124adb6b0d749c9a83e32e81ece2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 30/96] fix: candidate links of unavailable or unreachable
 sites take their status

---
 terragraph_planner/los/helper.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 0aba3a9..42fecf6 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -936,12 +936,23 @@ def add_links_to_topology(
                 continue
             for tx_site in site_map[tx_site_idx]:
                 for rx_site in site_map[rx_site_idx]:
+                    end_statuses = {tx_site.status_type, rx_site.status_type}
+                    # A link from/to an unavailable or unreachable site has the
+                    # same status as that site
+                    if StatusType.UNAVAILABLE in end_statuses:
+                        if StatusType.UNREACHABLE in end_statuses:
+                            continue
+                        status_type = StatusType.UNAVAILABLE
+                    elif StatusType.UNREACHABLE in end_statuses:
+                        status_type = StatusType.UNREACHABLE
+                    else:
+                        status_type = StatusType.CANDIDATE
                     link = Link(
                         tx_site=tx_site,
                         rx_site=rx_site,
                         tx_sector=None,
                         rx_sector=None,
-                        status_type=StatusType.CANDIDATE,
+                        status_type=status_type,
                         is_wireless=True,
                         confidence_level=confidence_dict[
                             (tx_site_idx, rx_site_idx)
-- 
2.43.0


From 33985244bb8493549e4cc72ed6ee04391c6849a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 31/96] fix: keep input sites on a known building when sites
 are detected

---
 terragraph_planner/los/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 42fecf6..0506e55 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -610,7 +610,7 @@ def pick_best_sites_per_building(
     # Build a dict which map building to the sites on that building
     building_to_sites = defaultdict(list)
     for site_idx, site in enumerate(sites):
-        if site.building_id is not None and site.building_id > -1:
+        if isinstance(site, DetectedSite):
             building_to_sites[site.building_id].append(site_idx)
         else:
             # User input sites must be picked
-- 
2.43.0


From f4f2a96eab9771dc04745cf3d741ac5244a308c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 32/96] fix: pick the best site of a building whatever the
 order of the buildings

---
 terragraph_planner/los/helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 0506e55..5e44db0 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -616,10 +616,10 @@ def pick_best_sites_per_building(
             # User input sites must be picked
             picked_sites.append(site_idx)
 
+    # The CNs added below should not affect the number of LOS
+    num_los = [len(neighbors) for neighbors in rx_neighbors]
     for sites_on_building in building_to_sites.values():
-        sites_on_building.sort(
-            reverse=True, key=lambda site: len(rx_neighbors[site])
-        )
+        sites_on_building.sort(reverse=True, key=lambda site: num_los[site])
         if dn_deployment:
             picked_sites.append(sites_on_building[0])
 
-- 
2.43.0


From 190848d36f0307a9f7a0cdefc5e648bfa53d1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 33/96] fix: detect rooftop centers when the highest points
 cannot be known

---
 terragraph_planner/los/building_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..a4a7aa4 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -176,7 +176,8 @@ class BuildingGroup(GISData):
         )
 
         for building_id, building in enumerate(self.building_list):
-            if detect_center:
+            # Without surface data, centers take the place of highest points
+            if detect_center or (detect_highest and surface_elevation is None):
                 site_candidates.append(
                     _convert_point_3d_to_site(
                         none_throws(building.detect_center(surface_elevation)),
-- 
2.43.0


From 929398204095ae6136e1fad615edcf78ef5acea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 34/96] fix: read a zipped shapefile that contains a __MACOSX
 folder

---
 terragraph_planner/common/data_io/building_group_loader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..e443e1b 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -66,10 +66,9 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
                 raise DataException(
                     "Zip folder that contains shape files must not contain any other folders."
                 )
-        dir_name = unzipped_dir if len(dir_names) == 0 else dir_names[0]
 
         # Get input layer and CRS
-        shp_file_path = glob.glob(os.path.join(dir_name, "*.shp"))[0]
+        shp_file_path = glob.glob(os.path.join(unzipped_dir, "*.shp"))[0]
         driver = ogr.GetDriverByName("ESRI Shapefile")
         ds = driver.Open(shp_file_path)
         layer = ds.GetLayer()
-- 
2.43.0


From e488e946ae2e878ddebe091d09228941e030f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 35/96] fix: keep courtyards of building and zone outlines as
 holes

---
 .../common/data_io/building_group_loader.py    |  6 +++++-
 .../common/data_io/kml_library.py              | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index e443e1b..ba4f7aa 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -80,7 +80,11 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             polygon = wkt.loads(feature.GetGeometryRef().ExportToWkt())
             if polygon.has_z:
                 polygon = geometry.Polygon(
-                    [coord[:2] for coord in polygon.exterior.coords]
+                    [coord[:2] for coord in polygon.exterior.coords],
+                    [
+                        [coord[:2] for coord in ring.coords]
+                        for ring in polygon.interiors
+                    ],
                 )
             building_list.append(Building(polygon))
             feature = layer.GetNextFeature()
diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index de821dd..3b3d17f 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -270,7 +270,21 @@ def extract_polygons(
         for layer in kml_ds:
             for feature in layer:
                 geo = feature.GetGeometryRef()
-                for i in range(geo.GetGeometryCount()):
+                # The rings of a polygon after the first one are its holes
+                is_polygon = geo.GetGeometryName() == "POLYGON"
+                holes = (
+                    [
+                        [coord[:2] for coord in geo.GetGeometryRef(i).GetPoints()]
+                        for i in range(1, geo.GetGeometryCount())
+                    ]
+                    if is_polygon
+                    else []
+                )
+                for i in range(
+                    min(geo.GetGeometryCount(), 1)
+                    if is_polygon
+                    else geo.GetGeometryCount()
+                ):
                     coords = json.loads(geo.GetGeometryRef(i).ExportToJson())[
                         "coordinates"
                     ]
@@ -292,7 +306,7 @@ def extract_polygons(
                     # e.g. [(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)]
                     if len(coords) > 3:
                         polygon_list.append(
-                            Polygon([coord[:2] for coord in coords])
+                            Polygon([coord[:2] for coord in coords], holes)
                         )
         return polygon_list
     except Exception:
-- 
2.43.0


From cb2cc71f773428018c1497e99831e96ea1d54e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 36/96] fix: keep the part of a building that is inside the
 boundary when it also touches it

---
 terragraph_planner/los/building_group.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index a4a7aa4..81f7b18 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -11,7 +11,7 @@ from osgeo import osr
 from PIL import Image, ImageDraw
 from pyre_extensions import none_throws
 from shapely import ops, prepared
-from shapely.geometry import MultiPolygon, Polygon
+from shapely.geometry import GeometryCollection, MultiPolygon, Polygon
 
 from terragraph_planner.common.configuration.enums import SiteType
 from terragraph_planner.common.constants import LAT_LON_EPSG
@@ -98,9 +98,13 @@ class BuildingGroup(GISData):
                     cut_geom = geom.intersection(ll_boundary_polygon)
                     if isinstance(cut_geom, Polygon):
                         self.add_building(polygon=cut_geom)
-                    elif isinstance(cut_geom, MultiPolygon):
-                        for subgeom in cut_geom:
-                            self.add_building(polygon=subgeom)
+                    elif isinstance(
+                        cut_geom, (MultiPolygon, GeometryCollection)
+                    ):
+                        for subgeom in cut_geom.geoms:
+                            # Skip points and lines where they only touch
+                            if isinstance(subgeom, Polygon):
+                                self.add_building(polygon=subgeom)
         # Use selection polygons to filter out building polygons
         if selection_polygons is not None and len(selection_polygons) > 0:
             building_list = self.building_list
-- 
2.43.0


From ecb330530de00cc6e2d932e04df39f49cae6c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:57 +0000
Subject: [PATCH 37/96] fix: do not back off to an MCS level that is not in the
 MCS table

---
 terragraph_planner/common/rf/link_budget_calculator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..30281cd 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -413,7 +413,12 @@ def adjust_tx_power_with_backoff(
     until that is no longer the case. This function returns the adjusted MCS
     level and Tx power.
     """
+    # Only the MCS levels in the mapping are possible, there might be gaps
+    mcs_levels = {row.mcs for row in mcs_snr_mbps_map}
     while mcs_level > 0:
+        if mcs_level not in mcs_levels:
+            mcs_level -= 1
+            continue
         snr_dbm = get_snr_from_mcs(mcs_level, mcs_snr_mbps_map)
         rsl_dbm = get_snr_based_rsl(snr_dbm, np_dbm)
         tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
-- 
2.43.0


From 729fb37dd32546104e6ee85708c35aa674442609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 38/96] fix: place fewer nodes when the pointing grid has no
 room for all of them

With e.g. nine nodes of 40 degrees per site, which the configuration
allows, no placement on the 3 degree pointing grid exists and creating
the sectors failed with 'Could not find best sector position'.
---
 .../optimization/topology_preparation.py       | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..0598a8c 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -977,6 +977,24 @@ def find_best_sectors(
                 best_idx = prev_sector[node_idx][best_idx]
                 best_position.append(best_idx)
 
+    # The pointing precision may leave no room for all of the nodes (e.g., nine
+    # nodes of 40 degrees), in which case we place as many as possible
+    if best_position is None and num_nodes > 1:
+        return find_best_sectors(
+            site=site,
+            neighbor_site_list=neighbor_site_list,
+            number_of_nodes=num_nodes - 1,
+            number_of_sectors_per_node=number_of_sectors_per_node,
+            horizontal_scan_range=horizontal_scan_range,
+            dn_dn_sector_limit=dn_dn_sector_limit,
+            dn_total_sector_limit=dn_total_sector_limit,
+            diff_sector_angle_limit=diff_sector_angle_limit,
+            near_far_angle_limit=near_far_angle_limit,
+            near_far_length_ratio=near_far_length_ratio,
+            backhaul_link_type_weight=backhaul_link_type_weight,
+            sector_channel_list=sector_channel_list,
+        )
+
     # Something is very wrong if we couldn't improve on the original `mets`
     planner_assert(
         best_position is not None,
-- 
2.43.0


From 22bc7264980845636899f3d3f51fd1731df0a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 39/96] fix: give the sectors of unavailable and unreachable
 sites their site's status

Sectors were always created as candidates, which such sites refuse, so
preparing a topology with an unavailable site that has links failed.
---
 terragraph_planner/optimization/topology_preparation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 0598a8c..b597e2a 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -196,7 +196,9 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +249,9 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From 585f3f413513c0d070ab6a268525716fc693192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 40/96] fix: measure the CN sector angles round the circle

A CN with neighbors on both sides of north (e.g., at 359 and 1 degrees)
got a sector that covered only one of them.
---
 terragraph_planner/optimization/topology_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index b597e2a..294806a 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -571,6 +571,10 @@ def find_best_equidistant_sectors(
         np.round((link_angles - rotation_angles) / arc_length) % num_nodes
     )
     delta_angles = link_angles - node_ids * arc_length - rotation_angles
+    # Change delta into [-180, 180)
+    delta_angles = (
+        delta_angles + FULL_ROTATION_ANGLE / 2
+    ) % FULL_ROTATION_ANGLE - FULL_ROTATION_ANGLE / 2
     delta_angles[abs(delta_angles) > inter_node_angle / 2] = FULL_ROTATION_ANGLE
     mets = np.sum(delta_angles**2, axis=1)
     best_met_idx = mets.argmin()
-- 
2.43.0


From cf6747c99690b9568f9608bf13a2bbcdd8bd3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 41/96] fix: order the sectors of a node round the circle when
 validating them

The sectors on one side of the node's mean direction were sorted by
value, so a node of three or more sectors across north was refused.
---
 .../optimization/topology_preparation.py         | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 294806a..1fdc209 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -415,19 +415,9 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
         sin_sum = sum([math.sin(math.radians(a)) for a in azimuths])
         cos_sum = sum([math.cos(math.radians(a)) for a in azimuths])
         circ_mean = math.degrees(math.atan2(sin_sum, cos_sum)) % 360
-        l1 = [
-            a
-            for a in azimuths
-            if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
-        ]
-        l1.sort()
-        l2 = [
-            a
-            for a in azimuths
-            if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
-        ]
-        l2.sort()
-        sector_azimuths[node_id] = l1 + l2
+        sector_azimuths[node_id] = sorted(
+            azimuths, key=lambda a: (a - circ_mean + 180) % 360
+        )
 
     # First verify that each sector within the node are exactly horizontal scan
     # range apart. Note: azimuths should already be sorted
-- 
2.43.0


From 52a7ca12313acf120627af740f78f513ebf45e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 42/96] fix: allow for rounding when validating the distance
 between nodes

Nodes exactly a scan range apart, e.g. at 0.3 and 70.3 degrees, were
refused when their difference rounds to just below it.
---
 terragraph_planner/optimization/topology_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 1fdc209..c6292b1 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -459,7 +459,8 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
                 angle_diff1, angle_diff2, angle_diff3, angle_diff4
             )
             planner_assert(
-                min_angle_diff >= horizontal_scan_range,
+                min_angle_diff
+                >= horizontal_scan_range - SECTOR_LINK_ANGLE_TOLERANCE,
                 f"Sector nodes are separated by {min_angle_diff:0.1f}, "
                 f"but must be separated by at least the horizontal scan range {horizontal_scan_range}",
                 OptimizerException,
-- 
2.43.0


From 771173f5a6d181e12ba0d9cf94fc2bec07bd807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 43/96] fix: end the uniform demand grid next to the
 antimeridian

With all sites on one side of and within the grid spacing of the
antimeridian, the grid wrapped around and went on round the globe, or
failed with a longitude below -180.
---
 terragraph_planner/optimization/topology_demand.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..1178f63 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -147,22 +147,27 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    # If the sites cross the antimeridian, unwrap the longitudes beyond it
+    if antimeridian:
+        right += 360
+
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude,
+                        longitude=longitude
+                        if -180 <= longitude <= 180
+                        else (longitude + 180) % 360 - 180,
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 0afef7bcf48b2beefa15ddf6fc15326195cfe0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 44/96] fix: validate wired and one-way links like all others

Active wired links were required to have sectors, which they never have,
so planning failed after every step that used a wired link; links
without a reverse link (access links) were not validated at all.
---
 .../optimization/topology_preparation.py      | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index c6292b1..936c418 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1029,13 +1029,12 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Backhaul link {link.link_id} must be bidirectional.",
                 TopologyException,
             )
-        if reverse_link is None:
-            continue
-        planner_assert(
-            link.status_type == reverse_link.status_type,
-            f"A link {link.link_id} and its symmetric link have conflicting status types.",
-            TopologyException,
-        )
+        if reverse_link is not None:
+            planner_assert(
+                link.status_type == reverse_link.status_type,
+                f"A link {link.link_id} and its symmetric link have conflicting status types.",
+                TopologyException,
+            )
 
         # Existing link must be connected to existing sites/sectors.
         if link.status_type == StatusType.EXISTING:
@@ -1046,12 +1045,15 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
-                and none_throws(link.tx_sector).status_type
-                == StatusType.EXISTING
-                and link.rx_sector is not None
-                and none_throws(link.rx_sector).status_type
-                == StatusType.EXISTING,
+                not link.is_wireless
+                or (
+                    link.tx_sector is not None
+                    and none_throws(link.tx_sector).status_type
+                    == StatusType.EXISTING
+                    and link.rx_sector is not None
+                    and none_throws(link.rx_sector).status_type
+                    == StatusType.EXISTING
+                ),
                 f"Existing link {link.link_id} must be connected to existing sectors.",
                 TopologyException,
             )
@@ -1064,12 +1066,15 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
-                and none_throws(link.tx_sector).status_type
-                in StatusType.active_status()
-                and link.rx_sector is not None
-                and none_throws(link.rx_sector).status_type
-                in StatusType.active_status(),
+                not link.is_wireless
+                or (
+                    link.tx_sector is not None
+                    and none_throws(link.tx_sector).status_type
+                    in StatusType.active_status()
+                    and link.rx_sector is not None
+                    and none_throws(link.rx_sector).status_type
+                    in StatusType.active_status()
+                ),
                 f"Active link {link.link_id} must be connected to active sectors.",
                 TopologyException,
             )
-- 
2.43.0


From a70724c0ba67bbe7bcbd2c7a8fa14bf4a0d53824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 45/96] fix: report on plans with wired links

Reporting looked up the sectors of all active links, which failed for
wired links, so any plan that uses one could not be reported.
---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..aa6b229 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -414,7 +414,10 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        if (
+            link.status_type in StatusType.active_status()
+            and link.is_wireless
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From bc240b78f03323e6cb65757896681f8a6113928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 46/96] fix: keep the MCS class when the SNR equals its
 threshold up to rounding

Tx power control lowers the power until the SNR is exactly the threshold of
the MCS class, so rounding made links lose one or more classes.
---
 terragraph_planner/common/rf/link_budget_calculator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 30281cd..db70983 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -24,6 +24,9 @@ from terragraph_planner.common.structs import (
     ScanPatternData,
 )
 
+# Tolerance (dB) for comparing an SNR with the threshold of an MCS class
+SNR_ROUNDING_TOLERANCE = 1e-9
+
 
 def mhz_to_ghz(mhz_value: float) -> float:
     return mhz_value / 1000
@@ -466,6 +469,9 @@ def get_mcs_from_snr(snr_dbm: float, mcs_snr_mbps_map: List[MCSMap]) -> int:
     MCS = max{mcs: snr_dbm >= SNR[mcs]}
     """
     mcs_snr_mapping = {row.mcs: row.snr for row in mcs_snr_mbps_map}
+    # An SNR that was set to exactly meet the threshold of an MCS class (e.g., by
+    # tx power control) must not lose that class because of rounding
+    snr_dbm += SNR_ROUNDING_TOLERANCE
     if math.isnan(snr_dbm) or snr_dbm < min(mcs_snr_mapping.values()):
         return 0
 
-- 
2.43.0


From 21b5e2bbf53fddd2cd3425f986c534cf26b87c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 47/96] fix: analyze interference around active CNs that have
 no active link

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..ef519a8 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # A CN without an active incoming link has no polarity yet
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From 34ccd82d715bdbaf930836113333f78b1284ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 48/96] fix: keep link budgets after power control within the
 tx power backoff

The last step gave inactive links, and active links held at their minimum
power, an MCS class that the backoff of that class does not allow; active links
without sectors got a NaN signal level.
---
 .../optimization/topology_operations.py       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..d216e55 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -537,6 +537,7 @@ def update_link_caps_with_sinr(
         for link in topology.links.values()
         if link.status_type in StatusType.active_status()
         and link.link_type != LinkType.ETHERNET
+        and not link.is_out_of_sector()
     ]
 
     max_tx_power = {}
@@ -603,14 +604,22 @@ def update_link_caps_with_sinr(
             if tx_power_stable_count == len(active_links):
                 break
 
-    # update sinr_dbm, MCS & capacity
+    # update sinr_dbm, MCS & capacity; inactive links keep the link budget
+    # computed without interference
     analyze_interference(topology, link_net_gain_map)
-    for link in topology.links.values():
-        if link.link_type == LinkType.ETHERNET:
-            continue
+    for link in active_links:
         rx_data = topology.sites[link.rx_site.site_id].device
         mcs_snr_mbps_map = rx_data.sector_params.mcs_map
-        link.mcs_level = get_mcs_from_snr(link.sinr_dbm, mcs_snr_mbps_map)
+        # The tx power might support a higher MCS class than the ones that are
+        # allowed at that tx power due to tx power backoff
+        link.mcs_level, _ = adjust_tx_power_with_backoff(
+            mcs_level=get_mcs_from_snr(link.sinr_dbm, mcs_snr_mbps_map),
+            mcs_snr_mbps_map=mcs_snr_mbps_map,
+            min_tx_power=link.tx_power,
+            max_tx_power=max_tx_power[link.tx_site.device.device_sku],
+            net_gain_dbi=net_gain[link.link_id],
+            np_dbm=link.rsl_dbm - link.sinr_dbm,
+        )
         link.capacity = get_link_capacity_from_mcs(
             link.mcs_level, mcs_snr_mbps_map
         )
-- 
2.43.0


From 2f83a7bdab2a8d6f902ca686e98e4dc2cd31dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 49/96] fix: give wired links a finite cost in the routing
 graph

Wired links have no MCS level, so they were treated as unusable for routing.
---
 terragraph_planner/optimization/topology_networkx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..965a385 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -74,11 +74,14 @@ def build_digraph(
             and link.tx_site.status_type in status_filter
             and link.rx_site.status_type in status_filter
         ):
+            # Wired links do not have an MCS level
             G.add_edge(
                 link.tx_site.site_id,
                 link.rx_site.site_id,
                 link_type=link.link_type,
-                link_cost=_mcs_to_cost(link.mcs_level),
+                link_cost=default_link_cost
+                if link.link_type == LinkType.ETHERNET
+                else _mcs_to_cost(link.mcs_level),
             )
 
     nx.set_node_attributes(
-- 
2.43.0


From 692f502d06f87cfb64f385d142dc058faa741a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 50/96] fix: find disjoint paths without changing the graph

Removing the whole shortest path at once missed pairs of disjoint paths that
share links with it, and the links were put back without their type and cost.
---
 .../optimization/topology_networkx.py         | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 965a385..5c52e27 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -416,7 +416,9 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
             demand_connected_to_pop.add(demand_id)
             continue
 
-        # Delete edges from POPs to that demand location
+        # Delete the edges from POPs to that demand location one by one. There are
+        # two disjoint paths if and only if the demand location can be reached
+        # without each one of them.
         # Not including:
         # 1 - (SUPERSOURCE, POP) connection
         # 2 - (DN/POP, CN) connection
@@ -425,26 +427,24 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        has_disjoint_paths = True
         for n in range(1, len(shortest_path) - 2):
-            tail_site_id = shortest_path[n + 1]
-            if topology.sites[tail_site_id].site_type == SiteType.CN:
-                break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            if topology.sites[edge[1]].site_type == SiteType.CN:
+                break
+            # Recover the graph back to initial version after each removal
+            edge_data = graph.edges[edge]
+            graph.remove_edge(*edge)
+            has_path = nx.has_path(
+                graph, source=SUPERSOURCE, target=demand_id
+            )
+            graph.add_edge(*edge, **edge_data)
+            if not has_path:
+                has_disjoint_paths = False
+                break
 
-        if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
+        if has_disjoint_paths:
             demand_with_disjoint_paths.add(demand_id)
-
-        # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From c5a13949da753efe28b19edd9d5b4473f77cca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 51/96] fix: keep unavailable links when marking unreachable
 components

The status of an unavailable link cannot change, so marking a candidate site
with such a link raised an error.
---
 terragraph_planner/optimization/topology_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index d216e55..f5e2cdf 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -143,13 +143,15 @@ def mark_unreachable_components(
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From fd0aff5eb24deaa7e933c41ed60efad954c0e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 52/96] fix: find disruptive links that the candidate graph
 lacks or has one-way

Links without capacity are removed from the candidate graph, and removing them
again raised an error; so did links that only exist in one direction.
---
 .../optimization/topology_networkx.py         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 5c52e27..f6b5dfa 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -255,31 +255,31 @@ def find_most_disruptive_links(
             break
         elif len(edge_disruptions[(u, v)]) == 0:
             break
-        elif proposed_graph[u][v]["link_type"] == LinkType.WIRELESS_ACCESS:
-            continue
         elif (u, v) in disruptive_edges:
             continue
 
-        has_rev = candidate_graph.has_edge(v, u)
+        # The link might only be in one of the two directions, or not be part of
+        # the candidate graph at all
+        candidate_edges = [
+            edge
+            for edge in ((u, v), (v, u))
+            if candidate_graph_copy.has_edge(*edge)
+        ]
+        if len(candidate_edges) == 0:
+            continue
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
         # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        candidate_graph_copy.remove_edges_from(candidate_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
 
         if len(candidate_disruptions) == 0:
-            disruptive_edges.add((u, v))
-            if has_rev:
-                disruptive_edges.add((v, u))
+            disruptive_edges.update(candidate_edges)
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(candidate_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 1701c8b2f12296490dd7ae49885f22704e827ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 53/96] fix: repair links before they fail again at the same
 time

With a link availability of 0, a repaired link fails again immediately, and the
simulation raised an error because the failure was handled before the repair.
---
 .../optimization/topology_availability.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..cb5f063 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,9 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are handled in the order of their generation
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +108,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, len(events), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, len(events), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +130,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From 2012fddfe2d4e287d58bcac148b56b2c8b9093d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 54/96] fix: scale link availability when the simulation hits
 its time limit

Only the availability of the demand sites was scaled to the simulated time.
---
 terragraph_planner/optimization/topology_availability.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index cb5f063..b576a33 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -180,6 +180,7 @@ def compute_availability(
         if (
             time_limit_sec is not None
             and (time.time() - start_time) > time_limit_sec
+            and event_time > 0
         ):
             actual_simulation_time = event_time
             # Re-scale the availability values
@@ -187,6 +188,10 @@ def compute_availability(
                 availability[demand_id] = (
                     val * sim_length / actual_simulation_time
                 )
+            for edge, val in sim_link_availability.items():
+                sim_link_availability[edge] = (
+                    val * sim_length / actual_simulation_time
+                )
             logger.warning(
                 "Availability computation terminated due to reaching time limit."
             )
-- 
2.43.0


From fb413cfb4f42a280ca75ea09456a9db4c0c73802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 55/96] fix: count the capex of active nodes with an inactive
 first sector

Only the first sector of each node was looked at, so the capex of multi-sector
nodes was missing if that sector is not active but another one is.
---
 terragraph_planner/optimization/topology_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index f5e2cdf..53b12a9 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -477,6 +477,10 @@ def compute_capex(topology: Topology, params: OptimizerParams) -> Capex:
 
     seen_nodes = set()
     for sector in topology.sectors.values():
+        # The other sectors of an active node can be inactive
+        if sector.status_type not in StatusType.active_status():
+            continue
+
         # Only add node capex for one sector per node
         if (sector.site.site_id, sector.node_id) in seen_nodes:
             continue
-- 
2.43.0


From d1e33b75c8ac73257ff0935602416fc53f221993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 56/96] fix: report the outages caused by a link in both of its
 directions

---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index aa6b229..70652e4 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # The failures do not distinguish between a link and its reverse
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From ec8dc1a953c22913b6eafcfecd9dd551e6a40927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 57/96] fix: flag links whose rx sector violates the sector
 link limit

The report marks links connected to a violating sector on either end.
---
 terragraph_planner/optimization/topology_report.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 70652e4..5475d6d 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -640,9 +640,10 @@ def build_links_df(
             elif link_key == LinkKey.VIOLATES_NEAR_FAR:
                 output_value = link_id in near_far_violating_links
             elif link_key == LinkKey.VIOLATES_SECTOR_LIMIT:
-                output_value = (
-                    link.tx_sector is not None
-                    and link.tx_sector.sector_id in violating_sectors
+                output_value = any(
+                    sector is not None
+                    and sector.sector_id in violating_sectors
+                    for sector in (link.tx_sector, link.rx_sector)
                 )
             link_keys[output_name] = output_value
         raw_links[link_id] = link_keys
-- 
2.43.0


From 2b1994324484008b2ee6e8929fb8cecfb819c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 58/96] fix: Re-aim sectors of sites with active links in one
 direction

readjust_sectors_post_opt listed the sector and channel of only those
neighbors with a link from the site, so that a site with several channels
raised an IndexError (or paired the wrong links), and a KeyError if that link
is not active.
---
 .../optimization/topology_operations.py       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 53b12a9..b42108e 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -381,16 +381,25 @@ def readjust_sectors_post_opt(
 
         sector_channel_list: List[Tuple[str, int]] = []
         for neighbor_site in neighbor_site_list:
-            link = topology.get_link_by_site_ids(
-                site.site_id, neighbor_site.site_id
-            )
-            if link is not None:
+            # Exactly one entry per neighbor; the active link between the two
+            # sites can have either direction
+            for tx_site, rx_site in (
+                (site, neighbor_site),
+                (neighbor_site, site),
+            ):
+                link = topology.get_link_by_site_ids(
+                    tx_site.site_id, rx_site.site_id
+                )
+                if link is None or link.link_id not in link_channel_map:
+                    continue
+                sector = link.tx_sector if tx_site is site else link.rx_sector
                 sector_channel_list.append(
                     (
-                        none_throws(link.tx_sector).sector_id,
+                        none_throws(sector).sector_id,
                         link_channel_map[link.link_id],
                     )
                 )
+                break
 
         readjusted_angles = find_best_sectors(
             site=site,
-- 
2.43.0


From 9793b010d7c15d287b16ebc3e86bf064450c184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 59/96] fix: Activate sectors whose only active link is a
 reverse link

add_sectors_to_links skips a link that got its sectors along with the opposite
direction, so neither the channel nor the status of its sectors was set if only
the direction visited second is active.
---
 .../optimization/topology_preparation.py      | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 936c418..d498d3b 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -361,14 +361,19 @@ def add_sectors_to_links(
             reverse_link.tx_sector = rx_sector
             reverse_link.rx_sector = tx_sector
 
-        if (
-            link_channel_map is not None
-            and link.status_type in StatusType.active_status()
-        ):
-            tx_sector.channel = rx_sector.channel = link_channel_map[
-                link.link_id
-            ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+        # The reverse link is not revisited once its sectors are assigned
+        for assigned_link in (link, reverse_link):
+            if (
+                link_channel_map is not None
+                and assigned_link is not None
+                and assigned_link.status_type in StatusType.active_status()
+            ):
+                tx_sector.channel = rx_sector.channel = link_channel_map[
+                    assigned_link.link_id
+                ]
+                tx_sector.status_type = (
+                    rx_sector.status_type
+                ) = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 0c8072da618f7b28a794e5dbc185eb6c7386a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 60/96] fix: Keep nodes that serve several channels with
 different sectors

find_best_sectors dropped a node (or left the whole site as it was) if two of
its links have different channels, although the sectors of a node can have
different channels, which leaves active links without a sector.
---
 .../optimization/topology_preparation.py             | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index d498d3b..020f43c 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -814,8 +814,9 @@ def find_best_sectors(
             list(range(number_of_sectors_per_node)),
         )
     )
-    # Prune away the sector/node if it covers two links which must be on
-    # different sectors under the multi-channels plan
+    # Prune away the sector if it covers two links which must be on different
+    # sectors under the multi-channels plan; a node can cover both of them with
+    # different sectors
     if len(same_sector_violation_pairs) > 0:
         for j1, j2 in same_sector_violation_pairs:
             for (k, i) in sector_list:
@@ -825,13 +826,6 @@ def find_best_sectors(
                 ):
                     sector_azimuth_link_mat[k][i][j1] = 0
                     sector_azimuth_link_mat[k][i][j2] = 0
-            for k in range(num_azimuth_candidates):
-                if (
-                    node_azimuth_link_mat[k][j1] == 1
-                    and node_azimuth_link_mat[k][j2] == 1
-                ):
-                    node_azimuth_link_mat[k][j1] = 0
-                    node_azimuth_link_mat[k][j2] = 0
     # Prune away the combination of sectors/nodes pairs if they cover two links
     # separately and must be on the same sector, i.e. either violate different
     # sector angle limit / near-far ratio rules, or under the multi-channels plan
-- 
2.43.0


From 9e73e45da459b6bd6ed04ba1ad2f0dd9e1254db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 61/96] fix: Re-aim sectors of plans with active CNs that have
 no active link

The sector of such a CN (e.g., an existing CN that cannot be served) still has
its pre-optimization orientation, and an inactive link out of its range made
the whole optimization fail.
---
 .../optimization/topology_operations.py       | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b42108e..3f09864 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -440,19 +440,20 @@ def readjust_sectors_post_opt(
     for sector in sectors_to_add:
         topology.add_sector(sector)
 
-    # Sectors on inactive CN sites do not have well-defined orientation even
-    # post-optimization; clear the sectors for all incoming links to such sites
-    # (also needed for validate_link_sectors in add_sectors_to_links)
+    # Sectors on CN sites without active links do not have well-defined
+    # orientation even post-optimization; clear the sectors for all incoming
+    # links to such sites (also needed for validate_link_sectors in
+    # add_sectors_to_links)
     for link in topology.links.values():
-        if (
-            link.rx_site.site_type == SiteType.CN
-            and link.rx_site.status_type not in StatusType.active_status()
-        ):
-            planner_assert(
-                link.status_type not in StatusType.active_status(),
-                "Active link cannot be connected to inactive site",
-                OptimizerException,
-            )
+        if link.rx_site.site_type != SiteType.CN:
+            continue
+        planner_assert(
+            link.status_type not in StatusType.active_status()
+            or link.rx_site.status_type in StatusType.active_status(),
+            "Active link cannot be connected to inactive site",
+            OptimizerException,
+        )
+        if len(neighbor_sites[link.rx_site.site_id]) == 0:
             link.clear_sectors()
 
     add_sectors_to_links(
-- 
2.43.0


From 0e32f530b87e910dbc96ef4eaa6b0710b897a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 62/96] fix: Find no plan when no demand site can be connected

The coverage constraint of the common bandwidth took the minimum over an empty set of connectable demand sites and raised ValueError.
---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..cf261df 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -763,6 +763,8 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From 23be95819276838625036362d659dcce3efd9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 63/96] fix: Never use inactive POPs when POPs are always
 active

With always_active_pops, the site variables of unavailable and unreachable POPs were left free, so that such a POP could serve the demand sites connected to it.
---
 .../optimization/ilp_models/network_optimization.py      | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index cf261df..824c4eb 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -847,14 +847,15 @@ class NetworkOptimization(OptimizationSetup):
         # links because topology validation ensures their connected sites are
         # already active
         for loc in self.locations:
-            if (
+            if loc in self.inactive_sites:
+                self.problem.addConstraint(self.site_vars[loc] == 0)
+            elif (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
             ):
                 if (
-                    loc not in self.inactive_sites
                     # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
@@ -873,8 +874,6 @@ class NetworkOptimization(OptimizationSetup):
                     <= 1
                 ):
                     self.problem.addConstraint(self.site_vars[loc] == 1)
-            elif loc in self.inactive_sites:
-                self.problem.addConstraint(self.site_vars[loc] == 0)
 
     def create_active_link_polarity_constraints(self) -> None:
         if self.params.ignore_polarities:
-- 
2.43.0


From 3caf95c42017c1bf55466580f13439c1ecb2ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 64/96] fix: Do not give up on plans whose POPs serve demand
 directly

The early exit of the cost optimization compared the capacity of the links out of the POPs with the total demand, although demand sites connected to a POP need no link, and although the common bandwidth is limited by the smallest demand of the connectable demand sites only.
---
 .../ilp_models/cost_optimization.py           | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/cost_optimization.py b/terragraph_planner/optimization/ilp_models/cost_optimization.py
index 8defa95..95b825f 100644
--- a/terragraph_planner/optimization/ilp_models/cost_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/cost_optimization.py
@@ -8,8 +8,13 @@ import time
 from typing import Optional
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
-from terragraph_planner.common.configuration.enums import DebugFile, StatusType
+from terragraph_planner.common.configuration.enums import (
+    DebugFile,
+    SiteType,
+    StatusType,
+)
 from terragraph_planner.common.topology_models.topology import Topology
+from terragraph_planner.optimization.constants import DEMAND, EPSILON
 from terragraph_planner.optimization.ilp_models.site_optimization import (
     SiteOptimization,
 )
@@ -51,6 +56,36 @@ class MinCostNetwork(SiteOptimization):
             f"{end_time - start_time:0.2f} seconds."
         )
 
+    def _get_min_pop_load(self) -> float:
+        """
+        Get a lower bound on the traffic that must leave the POPs on their
+        links in order to meet the coverage percentage. Demand sites connected
+        to a POP can be served by it directly.
+        """
+        demand_sites_at_pops = {
+            demand_site
+            for pop_site in self.type_sets[SiteType.POP] - self.inactive_sites
+            for (_, demand_site) in self.outgoing_links[pop_site]
+            if self.location_to_type[demand_site] == DEMAND
+        }
+        if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return 0
+            min_demand = min(
+                self.demand_at_location[loc]
+                for loc in self.connected_demand_sites
+            )
+            return (
+                self.params.coverage_percentage
+                * min_demand
+                * len(self.connected_demand_sites - demand_sites_at_pops)
+            )
+        return self.params.coverage_percentage * self.max_throughput - sum(
+            self.demand_at_location[loc]
+            for loc in self.locations
+            if loc in demand_sites_at_pops
+        )
+
     def solve(
         self,
         coverage_percentage: float,
@@ -73,10 +108,10 @@ class MinCostNetwork(SiteOptimization):
             pop_capacity=self.params.pop_capacity,
             status_filter=StatusType.reachable_status(),
         )
-        if max_capacity < self.max_throughput * self.params.coverage_percentage:
+        if max_capacity < self._get_min_pop_load() - EPSILON:
             # The maximum capacity that the POPs can support is less than the
-            # total demand in the area. Flow balance constraints can not be
-            # satisfied.
+            # demand that they must serve over their links. Flow balance
+            # constraints can not be satisfied.
             logger.info(
                 "Exiting cost optimization early. Total POP capacity"
                 + " cannot support the total demand."
-- 
2.43.0


From a695d1f6721a50bccfaec96372355ec44547219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 65/96] fix: Find reachable demand sites without changing any
 status

Links and sites to be ignored were temporarily set to UNREACHABLE, which raises for existing and unavailable links without capacity.
---
 .../ilp_models/network_optimization.py        | 35 +++++--------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 824c4eb..9a83993 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -32,8 +31,9 @@ from terragraph_planner.optimization.constants import (
 from terragraph_planner.optimization.ilp_models.optimization_setup import (
     OptimizationSetup,
 )
-from terragraph_planner.optimization.topology_operations import (
-    get_reachable_demand_sites,
+from terragraph_planner.optimization.topology_networkx import (
+    build_digraph,
+    find_connected_demands,
 )
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -155,31 +155,12 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
-        reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+        graph = build_digraph(self.topology, status_filter)
+        graph.remove_edges_from(self._get_ignore_links())
+        graph.remove_nodes_from(self._get_ignore_sites())
+        reachable_demand_sites = (
+            find_connected_demands(graph) if SUPERSOURCE in graph else set()
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
-- 
2.43.0


From fdeb8dd951b96b6ae17ad18c09ac9fa80492c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 66/96] fix: Do not connect demand sites through wireless links
 without sectors

The search for connectable demand sites used them although the optimization never does.
---
 .../optimization/ilp_models/network_optimization.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 9a83993..0c4bbca 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -122,7 +122,8 @@ class NetworkOptimization(OptimizationSetup):
         )
 
     def _get_ignore_links(self) -> Set[Tuple[str, str]]:
-        ignore_links = set()
+        # Wireless links without sectors cannot carry any flow
+        ignore_links = self.topology.get_sectorless_links()
         for link in self.topology.links.values():
             if link.capacity <= 0:
                 ignore_links.add((link.tx_site.site_id, link.rx_site.site_id))
-- 
2.43.0


From e9ff0b13e3d64174eb79e37b684d49f690d73cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 67/96] fix: Ignore sites co-located with always active POPs

The sites ignored when searching the connectable demand sites must match the constraints on co-located sites, which treat all POPs as active with always_active_pops.
---
 .../optimization/ilp_models/site_optimization.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/site_optimization.py b/terragraph_planner/optimization/ilp_models/site_optimization.py
index 5849d29..9706ad6 100644
--- a/terragraph_planner/optimization/ilp_models/site_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/site_optimization.py
@@ -90,6 +90,10 @@ class SiteOptimization(NetworkOptimization):
         ignore_sites = super(SiteOptimization, self)._get_ignore_sites()
 
         input_active_sites = self.proposed_sites | self.existing_sites
+        if self.params.always_active_pops:
+            input_active_sites |= (
+                self.type_sets[SiteType.POP] - self.inactive_sites
+            )
         for locs in self.colocated_locations.values():
             active_colocated_sites = input_active_sites.intersection(set(locs))
             if len(active_colocated_sites) == 0:
-- 
2.43.0


From cdeba69c578dabd6491278922573c5c05da6e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 68/96] fix: Do not force opposite polarities on wired links

Wired links given as existing or proposed forced their ends to have opposite polarities, although polarity is irrelevant for wired links; plans became infeasible.
---
 .../optimization/ilp_models/network_optimization.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 0c4bbca..ebdd9db 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -862,6 +862,9 @@ class NetworkOptimization(OptimizationSetup):
             return
         # If a link should be active, then the end sites must be of opposite polarities
         for (i, j) in self.links:
+            # Polarity is irrelevant for wired links
+            if (i, j) in self.wired_links:
+                continue
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
                 if i in self.odd and j in self.odd:
                     # Because only co-located CN sites can be upgraded and CN
-- 
2.43.0


From 01dff96324991689f05ece8578bd61dbeba1e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 69/96] fix: Allow for solver noise in the common bandwidth of
 plans without flow

---
 .../optimization/ilp_models/site_optimization.py      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/site_optimization.py b/terragraph_planner/optimization/ilp_models/site_optimization.py
index 9706ad6..58ef07d 100644
--- a/terragraph_planner/optimization/ilp_models/site_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/site_optimization.py
@@ -330,10 +330,13 @@ class SiteOptimization(NetworkOptimization):
             if math.isclose(sum(flow_decisions.values()), 0, abs_tol=EPSILON):
                 planner_assert(
                     self.common_bandwidth is None
-                    or solution_vector[
-                        self.problem.getIndex(self.common_bandwidth)
-                    ]
-                    == 0,
+                    or math.isclose(
+                        solution_vector[
+                            self.problem.getIndex(self.common_bandwidth)
+                        ],
+                        0,
+                        abs_tol=EPSILON,
+                    ),
                     "No flow in solution, but common bandwidth is positive",
                     OptimizerException,
                 )
-- 
2.43.0


From 442e3838f1022173b40a62323b018475b0dc4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 70/96] fix: Report flow metrics of plans without any active
 link

---
 terragraph_planner/optimization/topology_report.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 5475d6d..cf429f9 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -382,9 +382,11 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization, default=0),
+                min=min(active_link_utilization, default=0),
             ),
         )
     else:
-- 
2.43.0


From e24c94878d135e2e0480d5d809e21373be9dfb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 71/96] fix: Let traffic use links of existing sectors

---
 .../optimization/ilp_models/flow_optimization.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..25639c0 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,10 +181,11 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
-            (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
-            else 0
+            (loc, sec, 0): 1 if sec in active_sectors.get(loc, set()) else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
             if self.sector_to_type[sec] not in IMAGINARY_SECTOR_TYPES
-- 
2.43.0


From 2bbe64d06abfbf03b64ac44f6469c34e369af999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 72/96] fix: Deactivate all planned sites and links cut off
 from the POPs

---
 .../optimization/topology_optimization.py         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..e0cc23c 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -637,30 +637,29 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
-        if site.site_id not in hop_counts:
+    for site_id, site in topology.sites.items():
+        if site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 sector.status_type = StatusType.CANDIDATE
 
-    # Some active links may have ended up with candidate end-sites
+    # Some active links may have ended up with disconnected end-sites
     # Ensure that those links are also set to candidate.
     for link in topology.links.values():
         if link.status_type in StatusType.active_status():
-            tx_site = link.tx_site
-            rx_site = link.rx_site
             if (
-                tx_site.status_type == StatusType.CANDIDATE
-                or rx_site.status_type == StatusType.CANDIDATE
+                link.tx_site.site_id not in hop_counts
+                or link.rx_site.site_id not in hop_counts
             ):
                 current_link_status = link.status_type
                 if current_link_status not in StatusType.immutable_status() | {
-- 
2.43.0


From 4419ccde1515e02d152f49e8a36ec87021201ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 73/96] fix: Keep the status of existing POPs when proposing
 extra POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..75b38c9 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -267,9 +267,10 @@ class POPProposalNetwork(SiteOptimization):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                if site.status_type not in StatusType.immutable_status():
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 72c76b5d2fc98d3c7f45b43c4ace0c7914eb1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 74/96] fix: Copy link properties of extra POPs from the
 mirrored link

---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 75b38c9..5070aa6 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -124,8 +124,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From f850e7d9b11d937494e2996f1d0bbf1211852e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 75/96] fix: Carry no flow over wired links of inactive sites
 when assigning links

---
 .../optimization/ilp_models/interference_optimization.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..69a5a46 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -476,6 +476,12 @@ class MinInterferenceNetwork(NetworkOptimization):
                 self.problem.addConstraint(
                     self.flow[(i, j)] <= link_cap * self.active_link[(i, j)]
                 )
+            elif (
+                self.site_vars.get(i, 1) == 0 or self.site_vars.get(j, 1) == 0
+            ):
+                # Links without a link decision, e.g., wired links, cannot carry
+                # flow if one of the sites is not active
+                self.problem.addConstraint(self.flow[(i, j)] == 0)
 
     def create_cn_link_constraints(self) -> None:
         for cn in self.locations:
-- 
2.43.0


From bba906a6192ea7bf9ba125c6818b9d7ffafbae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 76/96] fix: Do not require sectors on existing wired links

---
 .../optimization/ilp_models/interference_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 69a5a46..e0a4423 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -367,6 +367,10 @@ class MinInterferenceNetwork(NetworkOptimization):
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 1)
 
+            # Wired links are not connected to any sectors
+            if (i, j) in self.wired_links:
+                continue
+
             # Ensure one of the sectors are active if the link is active
             (sector1, sector2) = self.link_to_sectors.get((i, j), (None, None))
             planner_assert(
-- 
2.43.0


From 5742da98740a0cb62e964ebc26dd020ca3faa3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 77/96] fix: Accept unavailable links at unreachable sites

---
 terragraph_planner/common/topology_models/link.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..1471c3f 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -379,9 +379,12 @@ class Link:
         if (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in {
+            StatusType.UNREACHABLE,
+            StatusType.UNAVAILABLE,
+        }:
             raise TopologyException(
-                "The status of the link with an unreachable tx or rx site must be unreachable."
+                "The status of the link with an unreachable tx or rx site must be unreachable or unavailable."
             )
         if (
             self._tx_site.status_type == StatusType.CANDIDATE
-- 
2.43.0


From a22418b779e7c52cd5c11333e88a1c3d1a48d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 78/96] fix: Plan redundancy despite disconnected existing DNs

---
 .../ilp_models/redundancy_optimization.py            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..f449015 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -101,6 +101,13 @@ class RedundantNetwork(SiteOptimization):
         self.restricted_sites: Set[str] = {
             loc for link in self.restricted_links for loc in link
         }
+        # Redundancy cannot be built for existing DNs that are not connected to
+        # the rest of the network
+        self.dns = [
+            dn
+            for dn in self.dns
+            if dn in self.restricted_sites or dn not in self.existing_sites
+        ]
         planner_assert(
             set(self.dns).issubset(self.restricted_sites),
             "Restricted sites must include all active DNs",
@@ -567,8 +574,9 @@ class RedundantNetwork(SiteOptimization):
                 and loc not in site_decisions
             ):
                 # In this case, DN should not be in forced_active_sites because
-                # if it was, it would be in self.dns; however, a POP that just
-                # connects to demand sites might not be in the restricted sites
+                # if it was, it would be in self.dns, unless it is existing and
+                # disconnected; however, a POP that just connects to demand
+                # sites might not be in the restricted sites
                 site_decisions[loc] = 1 if loc in forced_active_sites else 0
 
         odd_site_decisions = (
-- 
2.43.0


From 357230fb72c47ec6942acf6ca47c5ba785ef223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 79/96] fix: Do not copy unusable links to extra POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 5070aa6..6fab789 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -94,6 +94,9 @@ def add_duplicate_pop_to_dn_site(
             tx_link = none_throws(
                 topology.get_link_by_site_ids(dn_id, neighbor_site.site_id)
             )
+            # Do not duplicate links that cannot be used
+            if tx_link.status_type in StatusType.inactive_status():
+                continue
             if tx_link.tx_sector is None or tx_link.rx_sector is None:
                 continue
             new_tx_link = Link(
@@ -116,6 +119,9 @@ def add_duplicate_pop_to_dn_site(
             rx_link = none_throws(
                 topology.get_link_by_site_ids(neighbor_site.site_id, dn_id)
             )
+            # Do not duplicate links that cannot be used
+            if rx_link.status_type in StatusType.inactive_status():
+                continue
             if rx_link.tx_sector is None or rx_link.rx_sector is None:
                 continue
             new_rx_link = Link(
-- 
2.43.0


From d51b83cfbb3ba08ded4a4a2b8522c9327d3b4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 80/96] fix: Build redundancy from POPs of the plan only

---
 .../optimization/ilp_models/redundancy_optimization.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index f449015..6a0d54c 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -679,6 +679,7 @@ def compute_candidate_edges_for_redundancy(
         return ("_out", node_id)
 
     G = nx.DiGraph()
+    G.add_node(SUPERSOURCE)
     for site_id, site in topology.sites.items():
         if site.status_type in StatusType.inactive_status():
             continue
@@ -696,7 +697,10 @@ def compute_candidate_edges_for_redundancy(
             if site.site_type == SiteType.POP
             else 1.0,
         )
-        if site.site_type == SiteType.POP:
+        if (
+            site.site_type == SiteType.POP
+            and site.status_type in StatusType.active_status()
+        ):
             G.add_edge(
                 SUPERSOURCE, _get_node_in(site_id), capacity=pop_source_capacity
             )
-- 
2.43.0


From 5ceb8c535f1e433f118117b142d438a9aae71562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 81/96] fix: Count co-located sites once when proposing extra
 POPs

---
 .../ilp_models/pop_proposal_optimization.py         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 6fab789..4698dd9 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -215,21 +215,22 @@ class POPProposalNetwork(SiteOptimization):
         params.maximize_common_bandwidth = maximize_common_bandwidth
 
     def create_pop_constraint(self) -> None:
+        # Only one site can be active among co-located sites
         num_input_pops = len(
-            [
-                site.site_id
+            {
+                self.location_to_geoloc[site.site_id]
                 for site in self.input_topology.sites.values()
                 if site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
-            ]
+            }
         )
         num_access_pops = len(
-            [
-                site.site_id
+            {
+                self.location_to_geoloc[site.site_id]
                 for site in self.topology.sites.values()
                 if site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
-            ]
+            }
         )
 
         # Number of POPs to be proposed should equal to the number of extra
-- 
2.43.0


From 9eb61f13ad227e3268a78ba79c0fa4f18c914ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 82/96] fix: Let extra POPs be proposed next to existing DNs

---
 .../ilp_models/pop_proposal_optimization.py            | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 4698dd9..4436e5f 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -164,6 +164,7 @@ def _compute_access_candidate_topology(topology: Topology) -> Topology:
                 if topology_copy.sites[site_id].site_type == SiteType.DN:
                     dns_on_pops.add(site_id)
 
+    candidate_pops = set()
     for site in topology_copy.sites.values():
         if site.site_type == SiteType.DN:
             # No need to remove the DN if it's co-located with a POP because
@@ -176,12 +177,21 @@ def _compute_access_candidate_topology(topology: Topology) -> Topology:
                 # no POP at the same location, there won't be a site_id collision
                 # and, furthermore, this topology is local to this optimization.
                 site._site_type = SiteType.POP
+                # A DN that is already active does not have to become a POP
+                if site.status_type in StatusType.active_status():
+                    site._status_type = StatusType.CANDIDATE
+                    candidate_pops.add(site.site_id)
 
     links_to_delete = []
     for link in topology_copy.links.values():
         rx_site_type = topology_copy.sites[link.rx_site.site_id].site_type
         if rx_site_type != SiteType.CN:
             links_to_delete.append(link.link_id)
+        elif (
+            link.tx_site.site_id in candidate_pops
+            and link.status_type in StatusType.active_status()
+        ):
+            link._status_type = StatusType.CANDIDATE
 
     for link_id in links_to_delete:
         topology_copy.remove_link(link_id)
-- 
2.43.0


From 5270c13e6b9f39d58ff85ba5afc1b10310933f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 83/96] fix: Plan redundancy for DNs on a straight line

---
 .../ilp_models/redundancy_optimization.py     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 6a0d54c..074b98a 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -13,7 +13,7 @@ from typing import Any, List, Optional, Set, Tuple
 import networkx as nx
 import numpy as np
 import xpress as xp
-from scipy.spatial import Delaunay
+from scipy.spatial import Delaunay, QhullError
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -807,22 +807,26 @@ def compute_candidate_edges_for_redundancy(
         if len(dns) > 2:
             # Compute Delaunay triangulation (in 2D space)
             # Note: two proposed DNs with the same lat/lon should not occur
-            tri = Delaunay(
-                np.array(
+            points = np.array(
+                [
                     [
-                        [
-                            topology.sites[dn].latitude,
-                            topology.sites[dn].longitude,
-                        ]
-                        for dn in dns
+                        topology.sites[dn].latitude,
+                        topology.sites[dn].longitude,
                     ]
-                )
+                    for dn in dns
+                ]
             )
-
-            # Build graph from Delaunay triangulation
             delaunay_graph = nx.Graph()
-            for T in tri.simplices:
-                nx.add_cycle(delaunay_graph, T)
+            try:
+                # Build graph from Delaunay triangulation
+                for T in Delaunay(points).simplices:
+                    nx.add_cycle(delaunay_graph, T)
+            except QhullError:
+                # DNs on a straight line cannot be triangulated, so connect
+                # each one to the next one along the line
+                nx.add_path(
+                    delaunay_graph, np.lexsort((points[:, 1], points[:, 0]))
+                )
 
             # Pair vertices together that are one hop or two hops away in
             # Delaunay triangulation; if graph is symmetric, only add one of
-- 
2.43.0


From 6112886bc3391e8c699ad1f358fce0c62823478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 84/96] fix: Keep planned links polarity-compatible when adding
 redundancy

---
 .../ilp_models/redundancy_optimization.py            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 074b98a..d1c049d 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -371,17 +371,19 @@ class RedundantNetwork(SiteOptimization):
             return
 
         for (i, j) in self.links:
-            if (i, j) not in self.restricted_links:
-                continue
-
             if (i, j) in self.wired_links:
                 continue
 
             # If a link should be active, then the end sites must be of
             # opposite polarities (partly because in case flow is 0 for such a
-            # link, we still want the constraint to apply)
+            # link or the link is restricted, we still want the constraint to
+            # apply)
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
-                self.problem.addConstraint(self.odd[i] == 1 - self.odd[j])
+                if i in self.odd and j in self.odd:
+                    self.problem.addConstraint(self.odd[i] == 1 - self.odd[j])
+                continue
+
+            if (i, j) not in self.restricted_links:
                 continue
 
             for dn in self.dns:
-- 
2.43.0


From 193039084e6c4df4fce506c1734ed1e88e1ac734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 85/96] fix: Keep solver noise out of the redundancy shortage

---
 .../optimization/ilp_models/redundancy_optimization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index d1c049d..e865e38 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -465,8 +465,14 @@ class RedundantNetwork(SiteOptimization):
             shortage_decisions = self._extract_flat_dictionary(
                 solution_vector, self.shortage, binary=False
             )
-            # Set shortage to decisions output for second solve
-            self.shortage = shortage_decisions
+            # Set shortage to decisions output for second solve; all of the
+            # capacities are integral and therefore so is the shortage, but
+            # numerical noise could make the second problem infeasible or its
+            # solution more expensive
+            self.shortage = {
+                dn: math.floor(decision + EPSILON)
+                for dn, decision in shortage_decisions.items()
+            }
         else:
             self.shortage = None
         end_time = time.time()
-- 
2.43.0


From 741e8f1f88fc8e5fc86fdd84b67f95e2e6e39da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 86/96] fix: Keep all sectors of a node on or off together

---
 .../optimization/ilp_models/network_optimization.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index ebdd9db..3b4d7f5 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -387,7 +387,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
-- 
2.43.0


From 3eeeb8a115b89f67e01b45c68864e99ccb9e9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 87/96] fix: Give no time to links the interference step cannot
 choose

---
 .../optimization/ilp_models/interference_optimization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e0a4423..d95ac4d 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -569,6 +569,15 @@ class MinInterferenceNetwork(NetworkOptimization):
                         )
                         <= self.active_link[(i, j)]
                     )
+                else:
+                    # Links without a link decision cannot be used at any time
+                    self.problem.addConstraint(
+                        xp.Sum(
+                            self.tdm[(i, j, c)]
+                            for c in range(self.number_of_channels)
+                        )
+                        == 0
+                    )
 
     def create_polarity_link_relationship(self) -> None:
         """
-- 
2.43.0


From 1601c90a9d18467fae83e9bdeec0d72cc1f3b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 88/96] fix: Leave unavailable wired links out of the
 interference step's plan

---
 .../optimization/ilp_models/interference_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index d95ac4d..702ad7b 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -1123,6 +1123,10 @@ class MinInterferenceNetwork(NetworkOptimization):
                 or self.location_to_type[j] in IMAGINARY_SITE_TYPES
             ):
                 continue
+            if (i, j) in self.inactive_links or self.link_capacities[
+                (i, j)
+            ] <= 0:
+                continue
             tx_active = self.site_vars[i]
             rx_active = self.site_vars[j]
             if tx_active == 1 and rx_active == 1:
-- 
2.43.0


From 0615bd9e2d1dc4adf19d7cdfec7e7ffa038bfcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 89/96] fix: Compare the common bandwidth with zero within
 solver precision

---
 .../optimization/ilp_models/interference_optimization.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 702ad7b..94254a1 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -228,7 +228,7 @@ class MinInterferenceNetwork(NetworkOptimization):
                 common_bandwidth = sol[
                     self.problem.getIndex(self.common_bandwidth)
                 ]
-                if common_bandwidth == 0:
+                if math.isclose(common_bandwidth, 0, abs_tol=EPSILON):
                     logger.warning(
                         "No common bandwidth was found, re-solving with maximizing total network bandwidth"
                     )
@@ -1254,7 +1254,11 @@ class MinInterferenceNetwork(NetworkOptimization):
             if math.isclose(sum(flow_decisions.values()), 0, abs_tol=EPSILON):
                 planner_assert(
                     self.common_bandwidth is None
-                    or sol[self.problem.getIndex(self.common_bandwidth)] == 0,
+                    or math.isclose(
+                        sol[self.problem.getIndex(self.common_bandwidth)],
+                        0,
+                        abs_tol=EPSILON,
+                    ),
                     "No flow in solution, but common bandwidth is positive",
                     OptimizerException,
                 )
-- 
2.43.0


From e266b88abb69e8c06edc3a5e37f9c2563d678bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 90/96] fix: Leave the caller's parameters alone when there is
 no common bandwidth

---
 .../optimization/ilp_models/interference_optimization.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 94254a1..ac61f20 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -6,7 +6,7 @@
 import logging
 import math
 import time
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
@@ -232,6 +232,8 @@ class MinInterferenceNetwork(NetworkOptimization):
                     logger.warning(
                         "No common bandwidth was found, re-solving with maximizing total network bandwidth"
                     )
+                    # Leave the parameters of the caller as they are
+                    self.params = copy(self.params)
                     self.params.maximize_common_bandwidth = False
                     try:
                         self.problem.delVariable(self.common_bandwidth)
-- 
2.43.0


From 821985d61205ed4ec3f3a15b37a14d7025805c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 91/96] fix: connect sites through the ones an additional DN
 reaches

An additional DN may connect a picked site that was cut off before. What that
site reaches was not updated: CNs it serves got a superfluous additional DN,
and CNs which only a DN next to it can serve were left unconnected.
---
 terragraph_planner/los/helper.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 5e44db0..46d9760 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -791,14 +791,19 @@ def select_additional_dns(
             # Set the status of this selected DN to connected
             connected_sites.add(best_potential_dn)
             potential_connectable_sites.remove(best_potential_dn)
-            # Update the status of all the rx neighbors of the selected DN
-            for rx_neighbor in rx_neighbors[best_potential_dn]:
-                if rx_neighbor in potential_other_sites:
-                    potential_other_sites.remove(rx_neighbor)
-                    potential_connectable_sites.add(rx_neighbor)
-                elif rx_neighbor in unconnected_sites:
-                    unconnected_sites.remove(rx_neighbor)
-                    connected_sites.add(rx_neighbor)
+            # Update the status of all the sites that are connected by the
+            # selected DN, either directly or via other picked sites
+            sites_to_explore = deque([best_potential_dn])
+            while len(sites_to_explore) > 0:
+                for rx_neighbor in rx_neighbors[sites_to_explore.popleft()]:
+                    if rx_neighbor in potential_other_sites:
+                        potential_other_sites.remove(rx_neighbor)
+                        potential_connectable_sites.add(rx_neighbor)
+                    elif rx_neighbor in unconnected_sites:
+                        unconnected_sites.remove(rx_neighbor)
+                        connected_sites.add(rx_neighbor)
+                        unconnected_cns_set.discard(rx_neighbor)
+                        sites_to_explore.append(rx_neighbor)
         elif try_times < 3:  # Try every site for three times at most
             unconnected_cns_dq.append((current_unconnected_cn, try_times + 1))
 
-- 
2.43.0


From e3f49e731717d347e8cd3093e924e9945e5e8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 92/96] fix: apply the minimum MCS level to the default MCS
 table

---
 .../common/configuration/configs.py           |  3 +-
 .../common/data_io/csv_library.py             | 74 ++++++++++++-------
 2 files changed, 51 insertions(+), 26 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 2e6bb1f..8495e9f 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -20,6 +20,7 @@ from terragraph_planner.common.configuration.enums import (
 )
 from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
 from terragraph_planner.common.data_io.csv_library import (
+    filter_mcs_snr_mbps_map,
     read_antenna_pattern_data,
     read_mcs_snr_mbps_map_data,
     read_scan_pattern_data,
@@ -277,7 +278,7 @@ class SectorParams(ConfigParser):
         self.mcs_map: List[MCSMap] = (
             read_mcs_snr_mbps_map_data(mcs_map_file_path, self)
             if mcs_map_file_path is not None
-            else DEFAULT_MCS_SNR_MBPS_MAP
+            else filter_mcs_snr_mbps_map(DEFAULT_MCS_SNR_MBPS_MAP, self)
         )
 
 
diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index f603ced..602fd84 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -397,6 +397,44 @@ def read_scan_pattern_data(
     return pattern_data
 
 
+def filter_mcs_snr_mbps_map(
+    mcs_snr_mbps_map: List[MCSMap],
+    sector_params: "SectorParams",
+) -> List[MCSMap]:
+    """
+    Keep the rows of the mapping which the minimum MCS level and the minimum Tx
+    power allow.
+    """
+    planner_assert(
+        sector_params.minimum_mcs_level is None
+        or any(
+            row.mcs >= sector_params.minimum_mcs_level
+            for row in mcs_snr_mbps_map
+        ),
+        "The Max MCS level in the mapping table must not smaller than input Min MCS.",
+        DataException,
+    )
+    filtered_map = [
+        row
+        for row in mcs_snr_mbps_map
+        if (
+            sector_params.minimum_tx_power is None
+            or sector_params.maximum_tx_power - row.tx_backoff
+            >= none_throws(sector_params.minimum_tx_power)
+        )
+        and (
+            sector_params.minimum_mcs_level is None
+            or row.mcs >= sector_params.minimum_mcs_level
+        )
+    ]
+    planner_assert(
+        len(filtered_map) > 0,
+        "No row of the mapping table is allowed by Min MCS and Min Tx power.",
+        DataException,
+    )
+    return filtered_map
+
+
 def read_mcs_snr_mbps_map_data(
     map_file_path: str,
     sector_params: "SectorParams",
@@ -505,29 +543,15 @@ def read_mcs_snr_mbps_map_data(
         DataException,
     )
 
-    planner_assert(
-        sector_params.minimum_mcs_level is None
-        or max(mapping[MCS]) >= sector_params.minimum_mcs_level,
-        "The Max MCS level in the mapping table must not smaller than input Min MCS.",
-        DataException,
+    return filter_mcs_snr_mbps_map(
+        [
+            MCSMap(
+                mcs=int(mapping[MCS][i]),
+                snr=mapping[SNR][i],
+                mbps=mapping[MBPS][i],
+                tx_backoff=mapping[TX_BACKOFF][i],
+            )
+            for i in range(len(raw_data) - 1)
+        ],
+        sector_params,
     )
-
-    mcs_snr_mbps_map = [
-        MCSMap(
-            mcs=int(mapping[MCS][i]),
-            snr=mapping[SNR][i],
-            mbps=mapping[MBPS][i],
-            tx_backoff=mapping[TX_BACKOFF][i],
-        )
-        for i in range(len(raw_data) - 1)
-        if (
-            sector_params.minimum_tx_power is None
-            or sector_params.maximum_tx_power - mapping[TX_BACKOFF][i]
-            >= none_throws(sector_params.minimum_tx_power)
-        )
-        and (
-            sector_params.minimum_mcs_level is None
-            or mapping[MCS][i] >= sector_params.minimum_mcs_level
-        )
-    ]
-    return mcs_snr_mbps_map
-- 
2.43.0


From 91f47a2e0a5aafbe1e35ea579b8fd9b17bf37391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 93/96] fix: read antenna patterns with blank rows and refuse
 incomplete ones

---
 terragraph_planner/common/data_io/csv_library.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 602fd84..79e7f9d 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -333,6 +333,8 @@ def read_antenna_pattern_data(
         data = data.replace("", pd.NA)
         # drop columns and rows filled with NA values
         data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
+        # number the remaining rows again, as they are sliced by position below
+        data = data.reset_index(drop=True)
     except Exception:
         planner_assert(
             False,
@@ -350,21 +352,28 @@ def read_antenna_pattern_data(
     az_startlist = data[data[0] == "HORIZONTAL"].index
     el_startlist = data[data[0] == "VERTICAL"].index
     for i in range(len(idx)):
-        az_start = az_startlist[i]
-        el_start = el_startlist[i]
         try:
+            az_start = az_startlist[i]
+            el_start = el_startlist[i]
             az_pattern = data.iloc[az_start + 1 : az_start + 361].astype(
                 "float"
             )
             el_pattern = data.iloc[el_start + 1 : el_start + 361].astype(
                 "float"
             )
-        except ValueError:
+        except (IndexError, ValueError):
             planner_assert(
                 False,
                 "Imported antenna pattern file has an unexpected number of loss entries!",
                 DataException,
             )
+        planner_assert(
+            1 in az_pattern.columns
+            and az_pattern[1].count() == 360
+            and el_pattern[1].count() == 360,
+            "Imported antenna pattern file has an unexpected number of loss entries!",
+            DataException,
+        )
         antenna_pattern = [
             (-1 * az_pattern[1]).values.tolist(),
             (-1 * el_pattern[1]).values.tolist(),
-- 
2.43.0


From c835309a98ec533c054aebfd5b47d66f572d2640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 94/96] fix: refuse scan patterns with missing gains

---
 terragraph_planner/common/data_io/csv_library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 79e7f9d..4f9f574 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -398,6 +398,11 @@ def read_scan_pattern_data(
             "Imported scan pattern file is not in the expected .csv format!",
             DataException,
         )
+    planner_assert(
+        df.size > 0 and not df.isna().any(axis=None),
+        "Imported scan pattern file must have a gain for all angles!",
+        DataException,
+    )
     df_dict = df.to_dict("index")
     pattern_data = {
         float(hor): {float(ver): float(v) for ver, v in row.items()}
-- 
2.43.0


From 66f3cf9f107bca58bf148c119ccd9731f8e0256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 95/96] fix: keep the courtyards of KML outlines in a
 MultiGeometry

---
 terragraph_planner/common/data_io/kml_library.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 3b3d17f..b5d5049 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -285,6 +285,7 @@ def extract_polygons(
                     if is_polygon
                     else geo.GetGeometryCount()
                 ):
+                    part_holes = holes
                     coords = json.loads(geo.GetGeometryRef(i).ExportToJson())[
                         "coordinates"
                     ]
@@ -296,6 +297,11 @@ def extract_polygons(
                         and len(coords[0]) > 0
                         and type(coords[0][0]) is list
                     ):
+                        if geo.GetGeometryRef(i).GetGeometryName() == "POLYGON":
+                            part_holes = [
+                                [coord[:2] for coord in hole]
+                                for hole in coords[1:]
+                            ]
                         coords = coords[0]
                         logger.warning(
                             "A MultiPolygon is found is the KML. "
@@ -306,7 +312,7 @@ def extract_polygons(
                     # e.g. [(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)]
                     if len(coords) > 3:
                         polygon_list.append(
-                            Polygon([coord[:2] for coord in coords], holes)
+                            Polygon([coord[:2] for coord in coords], part_holes)
                         )
         return polygon_list
     except Exception:
-- 
2.43.0


From 9d169d0d9a62ada8e2441460b3c790d016844d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 96/96] fix: refuse scan patterns with texts for gains or
 repeated angles

---
 .../common/data_io/csv_library.py               | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 4f9f574..80d6b78 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -403,11 +403,18 @@ def read_scan_pattern_data(
         "Imported scan pattern file must have a gain for all angles!",
         DataException,
     )
-    df_dict = df.to_dict("index")
-    pattern_data = {
-        float(hor): {float(ver): float(v) for ver, v in row.items()}
-        for hor, row in df_dict.items()
-    }
+    try:
+        df_dict = df.to_dict("index")
+        pattern_data = {
+            float(hor): {float(ver): float(v) for ver, v in row.items()}
+            for hor, row in df_dict.items()
+        }
+    except ValueError:
+        planner_assert(
+            False,
+            "Imported scan pattern file must only have numbers and distinct angles!",
+            DataException,
+        )
     return pattern_data
 
 
-- 
2.43.0

