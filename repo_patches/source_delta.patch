From 330b89dcb712ff961b3c2c78f8f06eed139362e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 01/70] fix: rooftop sites of unknown building are not on the
 same building

Sites given by the user on a rooftop all carry UNKNOWN_BUILDING_ID, so every
pair of them was taken to be on one building and never got a line-of-sight.
---
 terragraph_planner/los/base_los_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..60cf0b5 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -108,6 +111,8 @@ class BaseLOSValidator(ABC):
             site1.location_type
             == site2.location_type
             == LocationType.ROOFTOP.value
+            and site1.building_id is not None
+            and site1.building_id > UNKNOWN_BUILDING_ID
             and site1.building_id == site2.building_id
         )
 
-- 
2.43.0


From 415db966fc8401d1678eb8b9384e73e6456891a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 02/70] fix: LOS memo must tell apart co-located sites on
 different buildings

Two sites at the same coordinates but on different buildings (row houses that
share a corner, a user site on a detected corner) shared one memo entry, so the
verdict of a link depended on which other links were in the same batch.
---
 terragraph_planner/los/helper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..2cbf2a6 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,15 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        # The verdict also depends on the location type and the building of the
+        # two sites, so the whole LOSSite is the key
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 3501095f2e218562d743b055026d16c73b0e7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 03/70] fix: removing a site forgets the sectors that went with
 it

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..6bf0a48 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From c73e73b102d91dad0c6637823a748249f52232ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 04/70] fix: wireless predecessors look at the link from the
 predecessor

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 6bf0a48..301531d 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -310,7 +310,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From 1675b10e9083bcf24df53affa8b42dcc04f20aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 05/70] fix: sectors created on fixed-status sites follow the
 site's status

Networks with existing links or unavailable sites could not be prepared or
validated because every sector was created as a candidate.
---
 .../optimization/topology_operations.py       |  3 ++-
 .../optimization/topology_preparation.py      | 21 ++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..7ded3e3 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -49,6 +49,7 @@ from terragraph_planner.optimization.topology_preparation import (
     add_link_capacities,
     add_sectors_to_links,
     find_best_sectors,
+    get_initial_sector_status,
 )
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -419,7 +420,7 @@ def readjust_sectors_post_opt(
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=get_initial_sector_status(site),
                 )
                 sectors_to_add.append(n)
 
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..8774ae9 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -151,6 +151,19 @@ def setup_node_structure(topology: Topology) -> None:
     )
 
 
+def get_initial_sector_status(site: Site) -> StatusType:
+    """
+    The sectors on sites with a fixed status (i.e., existing, unavailable or
+    unreachable) have the same status as the site. All the others are up to the
+    optimizer.
+    """
+    if site.status_type in StatusType.inactive_status() | {
+        StatusType.EXISTING
+    }:
+        return site.status_type
+    return StatusType.CANDIDATE
+
+
 def create_dn_sectors(topology: Topology) -> None:
 
     # sectors_for_sites is used to indicate that we have already added
@@ -196,7 +209,7 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=get_initial_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +260,7 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=get_initial_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -364,7 +377,9 @@ def add_sectors_to_links(
             tx_sector.channel = rx_sector.channel = link_channel_map[
                 link.link_id
             ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+            for sector in (tx_sector, rx_sector):
+                if sector.status_type != StatusType.EXISTING:
+                    sector.status_type = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 5088581996f31c0d1c85dcde9cf636cc8ecbf807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 06/70] fix: marking unreachable sites leaves unavailable links
 alone

---
 terragraph_planner/optimization/topology_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 7ded3e3..686bff9 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -144,13 +144,15 @@ def mark_unreachable_components(
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From df056eeb2f4579d35a0ac6fce32607495267dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 07/70] fix: finding reachable demand does not touch component
 statuses

Temporarily marking zero-capacity links unreachable raised for existing and
unavailable links and left the statuses of the others changed.
---
 .../ilp_models/network_optimization.py        | 28 +++----------------
 .../optimization/topology_operations.py       | 28 +++++++++++++++----
 2 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..0fe816d 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -155,31 +154,12 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
         reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+            self.topology,
+            status_filter,
+            ignore_sites=self._get_ignore_sites(),
+            ignore_links=self._get_ignore_links(),
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 686bff9..bcd33df 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -58,13 +58,20 @@ logger: logging.Logger = logging.getLogger(__name__)
 def hops_from_pops(
     topology: Topology,
     status_filter: Optional[Set[StatusType]],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Dict[str, int]:
     if status_filter is None:
         status_filter = set(StatusType)
+    ignore_sites = ignore_sites or set()
+    ignore_links = ignore_links or set()
     hop_counts = {}
-    current_site_ids = topology.get_site_ids(
-        status_filter=status_filter,
-        site_type_filter={SiteType.POP},
+    current_site_ids = (
+        topology.get_site_ids(
+            status_filter=status_filter,
+            site_type_filter={SiteType.POP},
+        )
+        - ignore_sites
     )
     site_count = len(current_site_ids)
     if site_count == 0:
@@ -83,6 +90,8 @@ def hops_from_pops(
             if (
                 link.tx_site.site_id in current_site_ids
                 and link.status_type in status_filter
+                and (link.tx_site.site_id, link.rx_site.site_id)
+                not in ignore_links
             )
         ]
         new_ids = {
@@ -92,6 +101,7 @@ def hops_from_pops(
             if (
                 topology.sites[site_id].status_type in status_filter
                 and site_id not in current_site_ids
+                and site_id not in ignore_sites
             )
         }
         if len(new_ids) > 0:
@@ -104,12 +114,20 @@ def hops_from_pops(
 
 
 def get_reachable_demand_sites(
-    topology: Topology, status_filter: Set[StatusType]
+    topology: Topology,
+    status_filter: Set[StatusType],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Set[str]:
     """
     Get all demand sites that can be reached from any POP.
     """
-    hops_counts = hops_from_pops(topology, status_filter=status_filter)
+    hops_counts = hops_from_pops(
+        topology,
+        status_filter=status_filter,
+        ignore_sites=ignore_sites,
+        ignore_links=ignore_links,
+    )
     reachable_demand_sites = set()
     for demand_site in topology.demand_sites.values():
         for site in demand_site.connected_sites:
-- 
2.43.0


From 0f3a2a08f620a48bca8bad8695916e532dd9ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 08/70] fix: sectors of links proposed in the input are
 proposed

Networks with proposed links could not pass validation because their sectors
were created as candidates.
---
 .../optimization/topology_preparation.py             | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 8774ae9..a51d45e 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -370,13 +370,11 @@ def add_sectors_to_links(
             reverse_link.tx_sector = rx_sector
             reverse_link.rx_sector = tx_sector
 
-        if (
-            link_channel_map is not None
-            and link.status_type in StatusType.active_status()
-        ):
-            tx_sector.channel = rx_sector.channel = link_channel_map[
-                link.link_id
-            ]
+        if link.status_type in StatusType.active_status():
+            if link_channel_map is not None:
+                tx_sector.channel = rx_sector.channel = link_channel_map[
+                    link.link_id
+                ]
             for sector in (tx_sector, rx_sector):
                 if sector.status_type != StatusType.EXISTING:
                     sector.status_type = StatusType.PROPOSED
-- 
2.43.0


From d55e9cb581515d7416d28b87f8b8e00b120deee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 09/70] fix: proposing POPs does not override existing POPs'
 status

---
 .../optimization/ilp_models/pop_proposal_optimization.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..380eb79 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -267,9 +267,10 @@ class POPProposalNetwork(SiteOptimization):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                if site.status_type == StatusType.CANDIDATE:
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 1cdd7c2d11b87204779688077a05c463e274142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 10/70] fix: links of a proposed POP mirror those of its DN

Unavailable links were duplicated as candidates, which raised if the other
site is unavailable, and incoming links took the attributes of an outgoing
link.
---
 .../optimization/ilp_models/pop_proposal_optimization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 380eb79..278f5c5 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -96,6 +96,9 @@ def add_duplicate_pop_to_dn_site(
             )
             if tx_link.tx_sector is None or tx_link.rx_sector is None:
                 continue
+            # Links that cannot be used by the DN cannot be used by the POP
+            if tx_link.status_type in StatusType.inactive_status():
+                continue
             new_tx_link = Link(
                 tx_site=pop_site,
                 rx_site=neighbor_site,
@@ -118,14 +121,16 @@ def add_duplicate_pop_to_dn_site(
             )
             if rx_link.tx_sector is None or rx_link.rx_sector is None:
                 continue
+            if rx_link.status_type in StatusType.inactive_status():
+                continue
             new_rx_link = Link(
                 tx_site=neighbor_site,
                 rx_site=pop_site,
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 2a4853a67d68bb2ff309717b0f4e297be762581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 11/70] fix: optimization steps do not modify the caller's
 parameters

If setting up a step raised, the caller was left with altered parameters.
---
 .../optimization/ilp_models/pop_proposal_optimization.py | 9 +--------
 .../optimization/ilp_models/redundancy_optimization.py   | 6 ++----
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 278f5c5..0d2e08a 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -199,20 +199,13 @@ class POPProposalNetwork(SiteOptimization):
         # Do not propose all POPs
         # Connected demand site optimization is not currently set up to handle
         # POP constraints, so do not run common bandwidth
-        ignore_polarities = params.ignore_polarities
-        always_active_pops = params.always_active_pops
-        maximize_common_bandwidth = params.maximize_common_bandwidth
+        params = deepcopy(params)
         params.ignore_polarities = True
         params.always_active_pops = False
         params.maximize_common_bandwidth = False
 
         super(POPProposalNetwork, self).__init__(access_topology, params, set())
 
-        # Restore parameter values
-        params.ignore_polarities = ignore_polarities
-        params.always_active_pops = always_active_pops
-        params.maximize_common_bandwidth = maximize_common_bandwidth
-
     def create_pop_constraint(self) -> None:
         num_input_pops = len(
             [
diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..6d558a3 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -7,6 +7,7 @@
 import logging
 import math
 import time
+from copy import deepcopy
 from itertools import product
 from typing import Any, List, Optional, Set, Tuple
 
@@ -66,14 +67,11 @@ class RedundantNetwork(SiteOptimization):
     ) -> None:
         # Maximize common bandwidth is not relevant for redundancy
         # Set to false for site optimization initialization
-        maximize_common_bandwidth = params.maximize_common_bandwidth
+        params = deepcopy(params)
         params.maximize_common_bandwidth = False
 
         super(RedundantNetwork, self).__init__(topology, params, set())
 
-        # Restore parameter value
-        params.maximize_common_bandwidth = maximize_common_bandwidth
-
         # Collect all the DNs for which redundancy is being built
         self.dns: List[str] = [
             loc
-- 
2.43.0


From 2c19d7911fa9399947e3d4752a04e92cc479b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 12/70] fix: common bandwidth planning handles networks with no
 connectable demand

---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 0fe816d..783b615 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -743,6 +743,8 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From a3416174ac69edbd9734325b5206da5a9a25091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 13/70] fix: existing links to upgraded sites do not abort the
 plan

---
 terragraph_planner/common/topology_models/link.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..ea5564c 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -282,12 +282,18 @@ class Link:
     def link_channel(self) -> int:
         if self.status_type in StatusType.active_status():
             if self.tx_sector and self.rx_sector:
+                # One of the ends of an existing link can be out of use, e.g., if
+                # the site was upgraded
+                channels = {
+                    self.tx_sector.channel,
+                    self.rx_sector.channel,
+                } - {UNASSIGNED_CHANNEL}
                 planner_assert(
-                    self.tx_sector.channel == self.rx_sector.channel,
+                    len(channels) <= 1,
                     "Channels of the two sectors of a link should be the same.",
                     TopologyException,
                 )
-                return none_throws(self.tx_sector).channel
+                return channels.pop() if channels else UNASSIGNED_CHANNEL
         return UNASSIGNED_CHANNEL
 
     @property
-- 
2.43.0


From 69f67c6bb118e99006355eee5a6ce91848a39846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 14/70] fix: links that cannot be active have no airtime in the
 interference model

---
 .../optimization/ilp_models/interference_optimization.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..e5643f0 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -559,6 +559,11 @@ class MinInterferenceNetwork(NetworkOptimization):
                         )
                         <= self.active_link[(i, j)]
                     )
+                else:
+                    # Links that cannot be active (e.g., without sectors) are
+                    # not limited by any sector and have no airtime
+                    for c in range(self.number_of_channels):
+                        self.problem.addConstraint(self.tdm[(i, j, c)] == 0)
 
     def create_polarity_link_relationship(self) -> None:
         """
-- 
2.43.0


From 767c658ef23ab4e3aab7c934c4befb2d688e26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 15/70] fix: zero common bandwidth is recognised within solver
 tolerance

---
 .../ilp_models/interference_optimization.py           |  8 ++++++--
 .../optimization/ilp_models/site_optimization.py      | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e5643f0..3a3775f 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -228,7 +228,7 @@ class MinInterferenceNetwork(NetworkOptimization):
                 common_bandwidth = sol[
                     self.problem.getIndex(self.common_bandwidth)
                 ]
-                if common_bandwidth == 0:
+                if math.isclose(common_bandwidth, 0, abs_tol=EPSILON):
                     logger.warning(
                         "No common bandwidth was found, re-solving with maximizing total network bandwidth"
                     )
@@ -1236,7 +1236,11 @@ class MinInterferenceNetwork(NetworkOptimization):
             if math.isclose(sum(flow_decisions.values()), 0, abs_tol=EPSILON):
                 planner_assert(
                     self.common_bandwidth is None
-                    or sol[self.problem.getIndex(self.common_bandwidth)] == 0,
+                    or math.isclose(
+                        sol[self.problem.getIndex(self.common_bandwidth)],
+                        0,
+                        abs_tol=EPSILON,
+                    ),
                     "No flow in solution, but common bandwidth is positive",
                     OptimizerException,
                 )
diff --git a/terragraph_planner/optimization/ilp_models/site_optimization.py b/terragraph_planner/optimization/ilp_models/site_optimization.py
index 5849d29..0adfd2d 100644
--- a/terragraph_planner/optimization/ilp_models/site_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/site_optimization.py
@@ -326,10 +326,13 @@ class SiteOptimization(NetworkOptimization):
             if math.isclose(sum(flow_decisions.values()), 0, abs_tol=EPSILON):
                 planner_assert(
                     self.common_bandwidth is None
-                    or solution_vector[
-                        self.problem.getIndex(self.common_bandwidth)
-                    ]
-                    == 0,
+                    or math.isclose(
+                        solution_vector[
+                            self.problem.getIndex(self.common_bandwidth)
+                        ],
+                        0,
+                        abs_tol=EPSILON,
+                    ),
                     "No flow in solution, but common bandwidth is positive",
                     OptimizerException,
                 )
-- 
2.43.0


From a658f4ea0eb04878c4a3d425d1f2b97be2be34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 16/70] fix: count POPs that serve demand directly in the POP
 capacity bound

---
 .../optimization/topology_operations.py           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index bcd33df..e143983 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -186,9 +186,17 @@ def compute_max_pop_capacity_of_topology(
     Given a single POP, this is done by first finding the max capacity outgoing
     link from each individual sector, adding them together along with the
     capacity of all the outgoing wired links. The smaller of this and the POP
-    capacity is the max outgoing capacity. This is summed across all of the
-    POPs in the topology.
+    capacity is the max outgoing capacity. A POP that serves demand directly
+    needs no outgoing link to do so, hence its max capacity is the POP capacity.
+    This is summed across all of the POPs in the topology.
     """
+    demand_pops = {
+        site.site_id
+        for demand in topology.demand_sites.values()
+        for site in demand.connected_sites
+        if site.site_type == SiteType.POP and site.status_type in status_filter
+    }
+
     site_sector_capacities = {}
     site_wired_capacities = {}
     for link_data in topology.links.values():
@@ -224,6 +232,9 @@ def compute_max_pop_capacity_of_topology(
 
     max_capacity = 0.0
     for pop_id in topology.get_site_ids(site_type_filter={SiteType.POP}):
+        if pop_id in demand_pops:
+            max_capacity += pop_capacity
+            continue
         pop_outgoing_capacity = 0
         if pop_id in site_sector_capacities:
             # Sum outgoing capacity of each POP sector
-- 
2.43.0


From 2f80900581c1b5fb6f41ebff7d02c7b874bd1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 17/70] fix: judge POP shortage against the demand the
 optimizer plans for

---
 terragraph_planner/optimization/topology_optimization.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..f66f743 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -9,7 +9,7 @@ import time
 from itertools import chain
 from typing import Dict, Optional, Tuple, Union
 
-from pyre_extensions import assert_is_instance, none_throws
+from pyre_extensions import assert_is_instance
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.constants import OPTIMIZATION
@@ -241,10 +241,7 @@ def _run_min_cost_step(
         pop_capacity=params.pop_capacity,
         status_filter=StatusType.reachable_status(),
     )
-    max_throughput = sum(
-        none_throws(d.demand) for d in topology.demand_sites.values()
-    )
-    if max_capacity < max_throughput * COVERAGE_THRESHOLD:
+    if max_capacity < min_cost_network.max_throughput * COVERAGE_THRESHOLD:
         raise OptimizerException(
             f"Insufficient number of POPs to meet {COVERAGE_THRESHOLD*100}% "
             "of requested demand. We recommend to increase the number of POPs "
-- 
2.43.0


From 16f1a120b28c940e33d2e473c958c1a91d2150e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 18/70] fix: always-active POPs no longer leave UNAVAILABLE
 POPs unconstrained

---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 783b615..d56a33e 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -830,11 +830,11 @@ class NetworkOptimization(OptimizationSetup):
             if (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
+                and loc not in self.inactive_sites
             ):
                 if (
-                    loc not in self.inactive_sites
                     # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
-- 
2.43.0


From 657a17f33687bfe8d40af4e004836b1d6476f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 19/70] fix: availability stopped by the time limit rescales
 link availability too

---
 terragraph_planner/optimization/topology_availability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..9ea0445 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -186,6 +186,10 @@ def compute_availability(
                 availability[demand_id] = (
                     val * sim_length / actual_simulation_time
                 )
+            for edge, val in sim_link_availability.items():
+                sim_link_availability[edge] = (
+                    val * sim_length / actual_simulation_time
+                )
             logger.warning(
                 "Availability computation terminated due to reaching time limit."
             )
-- 
2.43.0


From 40aaa99fa0cc886d13b1934315eab0accd02ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:40 +0000
Subject: [PATCH 20/70] fix: availability simulation handles links that are
 never available

---
 .../optimization/topology_availability.py          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index 9ea0445..8457268 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,11 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are processed in the order they were generated
+    # (e.g., a link that is never available fails again as soon as it is
+    # repaired)
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +110,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, len(events), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, len(events), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +132,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
@@ -178,6 +181,7 @@ def compute_availability(
 
         if (
             time_limit_sec is not None
+            and event_time > 0
             and (time.time() - start_time) > time_limit_sec
         ):
             actual_simulation_time = event_time
-- 
2.43.0


From c04f29ecbe4874d7a17dedbb15d6eeab0874ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 21/70] fix: disjoint path analysis does not modify the
 analysed graph

---
 terragraph_planner/optimization/topology_networkx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..71c548e 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -374,6 +374,7 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
     Note: This computation ignores throughput values and
     time-division-multiplexing
     """
+    graph = deepcopy(graph)  # Do not modify input graph
     all_shortest_paths = nx.single_source_shortest_path(
         graph, source=SUPERSOURCE
     )
-- 
2.43.0


From bf07b9e054f456c90b1599e33512b9958795e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 22/70] fix: weakest-link search skips links the candidate
 network cannot use

---
 terragraph_planner/optimization/topology_networkx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 71c548e..19b1006 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -257,6 +257,10 @@ def find_most_disruptive_links(
         elif (u, v) in disruptive_edges:
             continue
 
+        # A link that cannot be used in the candidate graph (e.g., because it
+        # has no capacity) cannot be a disruptive link
+        if not candidate_graph.has_edge(u, v):
+            continue
         has_rev = candidate_graph.has_edge(v, u)
 
         # If removing this edge from the candidate graph in addition
-- 
2.43.0


From 94e05e0083c3ab556bc9687a88de80992754f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 23/70] fix: report link outages for both directions of a link

---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..b6d9ad0 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # Outages are found per physical link, i.e., for both directions
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From f69b3051e30ed82c3f067ab14d6158b4ad969f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 24/70] fix: reported throughput includes the existing network

---
 .../optimization/ilp_models/flow_optimization.py          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..867799c 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,10 +181,12 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        # Sectors of the existing network carry flow as well
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
-            (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
-            else 0
+            (loc, sec, 0): 1 if sec in active_sectors.get(loc, set()) else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
             if self.sector_to_type[sec] not in IMAGINARY_SECTOR_TYPES
-- 
2.43.0


From fc55780f7c1afaabb0ab73e5051203f6cb68c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 25/70] fix: interference analysis handles active CNs without
 active links

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..6bb9c79 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # An active CN can be without an active link, e.g., if it was upgraded
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From a77477325ebcf712432767ec264e568c3b2e7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 26/70] fix: report plans without active links

---
 terragraph_planner/optimization/topology_report.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index b6d9ad0..fbe20af 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -382,9 +382,15 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                min=min(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
             ),
         )
     else:
-- 
2.43.0


From e54ce5f4789a62fa437b7fcb9e63632e446676a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 27/70] fix: report plans in which no demand can be served

---
 .../optimization/ilp_models/flow_optimization.py          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 867799c..f895654 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -111,6 +111,14 @@ class MaxFlowNetwork(NetworkOptimization):
                 0 if link.is_redundant else link.capacity
             )
 
+    def check_pop_feasibility(self, topology: Topology) -> None:
+        # A plan without any flow can still be analyzed
+        pass
+
+    def check_demand_feasibility(self, topology: Topology) -> None:
+        # A plan without any flow can still be analyzed
+        pass
+
     def _get_ignore_links(self) -> Set[Tuple[str, str]]:
         ignore_links = super(MaxFlowNetwork, self)._get_ignore_links()
         for link in self.topology.links.values():
-- 
2.43.0


From c265bd9e4657fd869ffbe710715b6716437a5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:38 +0000
Subject: [PATCH 28/70] fix: an analysis does not rely on the routing of an
 earlier one

---
 terragraph_planner/optimization/topology_report.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index fbe20af..a61894e 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -105,6 +105,10 @@ def analyze(
     """
     proposed_graph = build_digraph(topology, StatusType.active_status())
 
+    # Do not rely on the routing of an earlier analysis
+    for link in topology.links.values():
+        link.is_redundant = False
+
     # Compute optimal flow in the network
     if params.topology_routing is None:
         flow_solution = get_routing_flow_solution(topology, params)
-- 
2.43.0


From b80fbae6d6afe7889bddc4e35d5097c36a8d132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 29/70] fix: saved networks are UTF-8 and escape the network
 name

---
 terragraph_planner/common/data_io/topology_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..0d77761 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -156,7 +156,7 @@ def write_to_kml_file(
     kml = markup_string.getvalue()
     markup_string.close()
 
-    with open(kml_file_path, "w") as kfile:
+    with open(kml_file_path, "w", encoding="utf-8") as kfile:
         kfile.write(kml)
 
 
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From 2c5eb9f143a896bbcd2aad79c36f08681875c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 30/70] fix: rooftop sites of a saved network can be read back

---
 terragraph_planner/common/data_io/input_sites_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..d56e330 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,9 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            # The building of a rooftop site is not necessarily given in the file
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From 2396e36eadce092c3d9cd70724364c90c5b1c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 31/70] fix: confidence levels of a saved network are read back

---
 terragraph_planner/common/data_io/kml_library.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..5c508aa 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -5,6 +5,7 @@
 
 import json
 import logging
+import math
 import os
 import zipfile
 from typing import List, Optional, Tuple, Union
@@ -45,6 +46,17 @@ def _get_feature_field(
         return ""
 
 
+def _to_float(value: str) -> Optional[float]:
+    """
+    Convert the value of a field to float. Return None if it is not a finite number.
+    """
+    try:
+        number = float(value)
+    except ValueError:
+        return None
+    return number if math.isfinite(number) else None
+
+
 def _get_site_altitude_height(
     altitude_mode: str, altitude: Optional[float]
 ) -> Tuple[Optional[float], Optional[float]]:
@@ -144,9 +156,7 @@ def extract_links(
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=_to_float(confidence_level),
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From eab4e5a015b67055f4a188b7e4eab24a4ebc8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 32/70] fix: unavailable links of unreachable sites are
 accepted

---
 terragraph_planner/common/topology_models/link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index ea5564c..dbfc347 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -385,9 +385,9 @@ class Link:
         if (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in StatusType.inactive_status():
             raise TopologyException(
-                "The status of the link with an unreachable tx or rx site must be unreachable."
+                "The status of the link with an unreachable tx or rx site must be unreachable or unavailable."
             )
         if (
             self._tx_site.status_type == StatusType.CANDIDATE
-- 
2.43.0


From 645a7258666734cdbb1a990eeee032c533f611a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 33/70] fix: failing writes of GeoTIFF files are reported and
 never leave partial files

---
 .../common/data_io/elevation_loader.py        | 70 +++++++++++--------
 terragraph_planner/common/data_io/patterns.py | 25 ++++++-
 2 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..30bbfb4 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -5,6 +5,7 @@
 
 import logging
 import math
+import os
 from itertools import chain
 from typing import List
 
@@ -12,7 +13,10 @@ from osgeo import gdal
 
 from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
 from terragraph_planner.common.data_io.elevation_rules import ElevationRules
-from terragraph_planner.common.data_io.patterns import DataValidator
+from terragraph_planner.common.data_io.patterns import (
+    DataValidator,
+    raise_gdal_errors,
+)
 from terragraph_planner.common.exceptions import DataException
 from terragraph_planner.common.structs import UTMBoundingBox
 from terragraph_planner.los.elevation import Elevation
@@ -46,36 +50,44 @@ class ElevationLoader(DataValidator[Elevation]):
         @param dest_file_path: file path to write the data. Have to include extension.
         @param data: Elevation data that is to be written.
         """
+        # Only a completely written file gets the requested name
+        temp_file_path = f"{dest_file_path}.tmp"
         try:
-            driver = gdal.GetDriverByName("GTiff")
-            driver.Register()
-            outds = driver.Create(
-                dest_file_path,
-                xsize=data.x_size,
-                ysize=data.y_size,
-                bands=1,
-                eType=gdal.GDT_Float32,
-            )
-            outds.SetGeoTransform(
-                [
-                    data.left_top_x,
-                    data.x_resolution,
-                    0,
-                    data.left_top_y,
-                    0,
-                    -data.y_resolution,
-                ]
-            )
-            outds.SetSpatialRef(data.spatial_reference)
-
-            outband = outds.GetRasterBand(1)
-            outband.WriteArray(data.data_matrix)
-            outband.SetNoDataValue(NO_DATA_VALUE)
-            outband.FlushCache()
-
-            outband = None
-            outds = None
+            if os.path.exists(temp_file_path):
+                os.remove(temp_file_path)
+            with raise_gdal_errors():
+                driver = gdal.GetDriverByName("GTiff")
+                driver.Register()
+                outds = driver.Create(
+                    temp_file_path,
+                    xsize=data.x_size,
+                    ysize=data.y_size,
+                    bands=1,
+                    eType=gdal.GDT_Float32,
+                )
+                outds.SetGeoTransform(
+                    [
+                        data.left_top_x,
+                        data.x_resolution,
+                        0,
+                        data.left_top_y,
+                        0,
+                        -data.y_resolution,
+                    ]
+                )
+                outds.SetSpatialRef(data.spatial_reference)
+
+                outband = outds.GetRasterBand(1)
+                outband.WriteArray(data.data_matrix)
+                outband.SetNoDataValue(NO_DATA_VALUE)
+                outband.FlushCache()
+
+                outband = None
+                outds = None
+            os.replace(temp_file_path, dest_file_path)
         except Exception:
+            if os.path.exists(temp_file_path):
+                os.remove(temp_file_path)
             raise DataException("Error encountered when writting GeoTIFF")
         logger.info(
             f"The elevation model data has been saved to {dest_file_path}."
diff --git a/terragraph_planner/common/data_io/patterns.py b/terragraph_planner/common/data_io/patterns.py
index d2e4e09..6b520de 100644
--- a/terragraph_planner/common/data_io/patterns.py
+++ b/terragraph_planner/common/data_io/patterns.py
@@ -7,13 +7,36 @@ import os
 import shutil
 import tempfile
 from abc import ABC, abstractmethod
-from typing import Generic, List, TypeVar
+from contextlib import contextmanager
+from typing import Generic, Iterator, List, TypeVar
 
+from osgeo import gdal
 from osgeo.osr import SpatialReference
 
 from terragraph_planner.common.exceptions import DataException
 
 
+@contextmanager
+def raise_gdal_errors() -> Iterator[None]:
+    """
+    GDAL only logs errors like failing reads and writes and carries on. Turn the
+    errors that occur in the context into an exception at its end.
+    """
+    errors: List[str] = []
+
+    def _handle_error(error_class: int, error_num: int, message: str) -> None:
+        if error_class >= gdal.CE_Failure:
+            errors.append(message)
+
+    gdal.PushErrorHandler(_handle_error)
+    try:
+        yield
+    finally:
+        gdal.PopErrorHandler()
+    if len(errors) > 0:
+        raise DataException("; ".join(errors))
+
+
 class GISData:
     """
     Base class for raster data and vector data to inherit from.
-- 
2.43.0


From 1e6c81d1004c28f249ac6dd327f23208e9b6f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 34/70] fix: failing writes of building outlines are reported

---
 .../common/data_io/building_group_loader.py   | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..318009a 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -22,6 +22,7 @@ from terragraph_planner.common.data_io.kml_library import extract_polygons
 from terragraph_planner.common.data_io.patterns import (
     DataValidator,
     DataWorkSpace,
+    raise_gdal_errors,
 )
 from terragraph_planner.common.exceptions import DataException
 from terragraph_planner.los.building import Building
@@ -124,19 +125,20 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
         output_shp = os.path.join(output_dir, "buildings.shp")
         if os.path.exists(output_shp):
             driver.DeleteDataSource(output_shp)
-        output_ds = driver.CreateDataSource(output_shp)
-        output_layer = output_ds.CreateLayer("Building")
-        output_layer_defn = output_layer.GetLayerDefn()
-
-        # Iterate over building_list and save it into created layer
-        for building in buildings.building_list:
-            output_feature = ogr.Feature(output_layer_defn)
-            output_feature.SetGeometry(
-                ogr.CreateGeometryFromWkt(building.polygon.wkt)
-            )
-            output_layer.CreateFeature(output_feature)
-            output_feature = None
-        output_ds = None
+        with raise_gdal_errors():
+            output_ds = driver.CreateDataSource(output_shp)
+            output_layer = output_ds.CreateLayer("Building")
+            output_layer_defn = output_layer.GetLayerDefn()
+
+            # Iterate over building_list and save it into created layer
+            for building in buildings.building_list:
+                output_feature = ogr.Feature(output_layer_defn)
+                output_feature.SetGeometry(
+                    ogr.CreateGeometryFromWkt(building.polygon.wkt)
+                )
+                output_layer.CreateFeature(output_feature)
+                output_feature = None
+            output_ds = None
 
         # Create an ESRI.prj file
         buildings.spatial_reference.MorphFromESRI()
-- 
2.43.0


From daaaab41915d85f241574408d720aafb3ce044fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 35/70] fix: remove the temporary files of a candidate topology
 zip that is rejected

---
 terragraph_planner/common/data_io/utils.py | 32 ++++++++--------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index 2f9e40b..08f18f2 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -4,7 +4,6 @@
 # LICENSE file in the root directory of this source tree.
 
 import os
-import shutil
 import tempfile
 from collections import defaultdict
 from itertools import product
@@ -284,27 +283,20 @@ def extract_topology_from_file(
             topology_file_path, device_list, infer_input_site_location
         )
     else:
-        zip_ref = ZipFile(topology_file_path, "r")
-        planner_assert(
-            "sites.csv" in zip_ref.namelist()
-            and "links.csv" in zip_ref.namelist(),
-            'A "sites.csv" file and a "links.csv" file must be contained at'
-            "the top level of the zipped candidate file.",
-            DataException,
-        )
-        tmp_dir = tempfile.mkdtemp()
-        zip_ref.extractall(tmp_dir)
-        try:
-            topology = extract_topology_from_csv_files(
+        with ZipFile(
+            topology_file_path, "r"
+        ) as zip_ref, tempfile.TemporaryDirectory() as tmp_dir:
+            planner_assert(
+                "sites.csv" in zip_ref.namelist()
+                and "links.csv" in zip_ref.namelist(),
+                'A "sites.csv" file and a "links.csv" file must be contained at'
+                "the top level of the zipped candidate file.",
+                DataException,
+            )
+            zip_ref.extractall(tmp_dir)
+            return extract_topology_from_csv_files(
                 os.path.join(tmp_dir, "sites.csv"),
                 os.path.join(tmp_dir, "links.csv"),
                 device_list,
                 infer_input_site_location,
             )
-        except Exception as e:
-            shutil.rmtree(tmp_dir)
-            zip_ref.close()
-            raise e
-        shutil.rmtree(tmp_dir)
-        zip_ref.close()
-        return topology
-- 
2.43.0


From d93091cdfebb655d7b54836be70fed946e24e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 36/70] fix: read zipped building outlines with a __MACOSX or a
 single folder

---
 .../common/data_io/building_group_loader.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 318009a..d6ba266 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -15,6 +15,7 @@ from shapely import geometry, wkt
 
 from terragraph_planner.common.constants import LAT_LON_EPSG
 from terragraph_planner.common.data_io.building_group_rules import (
+    MAC_RESOURCE_FORK_DIR,
     BuildingGroupRules,
     ZippedShpFileRules,
 )
@@ -61,13 +62,20 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             self.validate_shp_file(zip_ref.namelist())
             zip_ref.extractall(unzipped_dir)
             dir_names = [
-                ref.filename for ref in zip_ref.infolist() if ref.is_dir()
+                ref.filename
+                for ref in zip_ref.infolist()
+                if ref.is_dir()
+                and ref.filename.rstrip("/") != MAC_RESOURCE_FORK_DIR
             ]
             if len(dir_names) > 1:
                 raise DataException(
                     "Zip folder that contains shape files must not contain any other folders."
                 )
-        dir_name = unzipped_dir if len(dir_names) == 0 else dir_names[0]
+        dir_name = (
+            unzipped_dir
+            if len(dir_names) == 0
+            else os.path.join(unzipped_dir, dir_names[0])
+        )
 
         # Get input layer and CRS
         shp_file_path = glob.glob(os.path.join(dir_name, "*.shp"))[0]
-- 
2.43.0


From 123dd294ab8e0adb4a69c35145f4396b455d0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 37/70] fix: transform exclusion zones to UTM before checking
 lines of sight against them

---
 terragraph_planner/los/helper.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 2cbf2a6..1da95aa 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -13,7 +13,7 @@ import numpy as np
 import numpy.typing as npt
 from osgeo import osr
 from pyre_extensions import none_throws
-from shapely import wkt
+from shapely import ops, wkt
 from shapely.geometry import Polygon
 from shapely.prepared import prep
 
@@ -30,6 +30,7 @@ from terragraph_planner.common.configuration.enums import (
     StatusType,
 )
 from terragraph_planner.common.constants import (
+    LAT_LON_EPSG,
     LOWER_BOUND_FOR_LOS_DISTANCE,
     UPPER_BOUND_FOR_LOS_DISTANCE,
 )
@@ -43,7 +44,11 @@ from terragraph_planner.common.exceptions import (
     LOSException,
     planner_assert,
 )
-from terragraph_planner.common.geos import GeoLocation
+from terragraph_planner.common.geos import (
+    GeoLocation,
+    TransformerLib,
+    lat_lon_to_utm_epsg,
+)
 from terragraph_planner.common.rf.link_budget_calculator import (
     fspl_based_estimation,
     get_max_tx_power,
@@ -200,7 +205,7 @@ def get_exclusion_zones(
     user_input_file_path: Optional[str], ll_boundary: Polygon
 ) -> List[Polygon]:
     """
-    Get a list of Polygon, representing the exclusion zones. boundary polygon
+    Get a list of Polygon in UTM, representing the exclusion zones. boundary polygon
     is used to filter out zones not fully contained in the boundary.
     """
     if user_input_file_path is not None and len(user_input_file_path) > 0:
@@ -209,7 +214,18 @@ def get_exclusion_zones(
         if ext == "kmz" or ext == "kml":
             exclusion_polygons = extract_polygons(user_input_file_path)
             prepared_boundary = prep(ll_boundary)
-            return list(filter(prepared_boundary.contains, exclusion_polygons))
+            transformer = TransformerLib.get_tranformer(
+                LAT_LON_EPSG,
+                lat_lon_to_utm_epsg(
+                    ll_boundary.centroid.y, ll_boundary.centroid.x
+                ),
+            )
+            return [
+                ops.transform(transformer.transform, polygon)
+                for polygon in filter(
+                    prepared_boundary.contains, exclusion_polygons
+                )
+            ]
     return []
 
 
-- 
2.43.0


From b29ab974c6b942d2756166b61dbfade08fafb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 38/70] fix: connect new sites with the sites of the base
 topology

---
 terragraph_planner/los/helper.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 1da95aa..73a8a03 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -913,6 +913,9 @@ def add_sites_to_topology(
             if site.site_id not in topology.sites:
                 topology.add_site(site)
                 site_map[site_idx] = [site]
+            # Sites of the base topology are already there
+            elif topology.sites[site.site_id] is site:
+                site_map[site_idx] = [site]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
@@ -931,6 +934,17 @@ def add_sites_to_topology(
     return site_map
 
 
+def get_status_of_new_link(tx_site: Site, rx_site: Site) -> StatusType:
+    """
+    A new link is a candidate unless an end site of the base topology is inactive.
+    """
+    status_types = {tx_site.status_type, rx_site.status_type}
+    for status_type in (StatusType.UNAVAILABLE, StatusType.UNREACHABLE):
+        if status_type in status_types:
+            return status_type
+    return StatusType.CANDIDATE
+
+
 def add_links_to_topology(
     topology: Topology,
     rx_neighbors: List[List[int]],
@@ -958,7 +972,7 @@ def add_links_to_topology(
                         rx_site=rx_site,
                         tx_sector=None,
                         rx_sector=None,
-                        status_type=StatusType.CANDIDATE,
+                        status_type=get_status_of_new_link(tx_site, rx_site),
                         is_wireless=True,
                         confidence_level=confidence_dict[
                             (tx_site_idx, rx_site_idx)
-- 
2.43.0


From 8dca8ddb8f90bb1dc6a39471a54efe1cbd3b422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 39/70] fix: detect building centers when the highest points
 cannot be detected without surface data

---
 terragraph_planner/los/building_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..0f14141 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -175,6 +175,10 @@ class BuildingGroup(GISData):
             self.crs_epsg_code, LAT_LON_EPSG
         )
 
+        # The highest point is unknown without surface elevation data, use the center instead
+        detect_center = detect_center or (
+            detect_highest and surface_elevation is None
+        )
         for building_id, building in enumerate(self.building_list):
             if detect_center:
                 site_candidates.append(
-- 
2.43.0


From b4012f58af3f93f1502918f022b271b494a37c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 40/70] fix: read typed KML fields as text and pick the first
 of several matching fields

---
 terragraph_planner/common/data_io/kml_library.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 5c508aa..1755ab3 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -36,14 +36,14 @@ def _get_feature_field(
     Get the value from the corresponding filed of an ogr feature.
     Only the first field in the feature would be returned if multiple matches.
     """
-    try:
-        feature_key_set = {k.casefold() for k in feature.keys()}
-        field = feature.GetField(
-            (feature_key_set & input.value.possible_input_names).pop()
-        )
-        return field if field is not None else ""
-    except:
-        return ""
+    for idx, key in enumerate(feature.keys()):
+        if (
+            key.casefold() in input.value.possible_input_names
+            and feature.IsFieldSetAndNotNull(idx)
+        ):
+            # A field may be declared as a number
+            return feature.GetFieldAsString(idx)
+    return ""
 
 
 def _to_float(value: str) -> Optional[float]:
-- 
2.43.0


From ee302b27527ce2f326cc1df6131c61063ebfa2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 41/70] fix: look up the sites of KML links without site names
 by location

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 1755ab3..c534b1b 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -157,10 +157,10 @@ def extract_links(
             status_type=status_type,
             link_type=link_type,
             confidence_level=_to_float(confidence_level),
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
-- 
2.43.0


From 090e650288106a716cd1a8d83092716a6d7ea442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 42/70] fix: use the type of the folder for KML links without
 link type

---
 terragraph_planner/common/data_io/kml_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index c534b1b..9b6158c 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -145,17 +145,17 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
+        feature_link_type = (
             LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+            else link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=feature_link_type,
             confidence_level=_to_float(confidence_level),
             tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
-- 
2.43.0


From 9157e3d475041661d197a4c695eac46141aca747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 43/70] fix: accept blank altitude and height cells in site CSV
 files

---
 .../common/data_io/csv_library.py             | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..e05e5cb 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -6,7 +6,7 @@
 import csv
 import re
 from itertools import combinations
-from typing import TYPE_CHECKING, List, Optional, Tuple
+from typing import TYPE_CHECKING, List, Optional, Tuple, Union
 
 import pandas as pd
 from pyre_extensions import none_throws
@@ -157,6 +157,23 @@ def load_csv_and_validate(
     return df
 
 
+def _to_number(value: Union[str, float, None], key: SiteKey) -> Optional[float]:
+    """
+    The number in a CSV cell, or None if the cell is blank. All the cells of a column
+    with blank cells are read as strings.
+    """
+    if not isinstance(value, str):
+        return value
+    if len(value.strip()) == 0:
+        return None
+    try:
+        return float(value)
+    except ValueError:
+        raise DataException(
+            f"Invalid {key.value.output_name} {value} in site csv file."
+        )
+
+
 def load_input_sites_from_csv_file(
     csv_file_path: str, is_user_input: bool
 ) -> List[RawSite]:
@@ -201,8 +218,12 @@ def load_input_sites_from_csv_file(
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-            altitude=site_row.get(SiteKey.ALTITUDE, None),
-            height=site_row.get(SiteKey.HEIGHT, None),
+            altitude=_to_number(
+                site_row.get(SiteKey.ALTITUDE, None), SiteKey.ALTITUDE
+            ),
+            height=_to_number(
+                site_row.get(SiteKey.HEIGHT, None), SiteKey.HEIGHT
+            ),
             location_type=LocationType.UNKNOWN,
             building_id=site_row.get(SiteKey.BUILDING_ID, None),
             number_of_subscribers=site_row.get(
-- 
2.43.0


From d9c1d8fc5bdf9c520752669375fe0b6e647dbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 44/70] fix: accept blank device SKU cells in site CSV files

---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index e05e5cb..06604de 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -214,7 +214,7 @@ def load_input_sites_from_csv_file(
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-- 
2.43.0


From 4d8b34570ccf8589e7e90b8e0cb0ad24e4351dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 45/70] fix: read the location type column of site CSV files

---
 terragraph_planner/common/data_io/csv_library.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 06604de..c027b7e 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -207,6 +207,13 @@ def load_input_sites_from_csv_file(
             raise DataException(
                 f"Invalid site type {site_type_str} in site csv file."
             )
+        location_type_str = site_row.get(SiteKey.LOCATION_TYPE, "").upper()
+        location_type = (
+            LocationType[location_type_str]
+            if location_type_str in LocationType.__members__
+            else LocationType.UNKNOWN
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         latitude = site_row[SiteKey.LATITUDE]
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
@@ -224,8 +231,10 @@ def load_input_sites_from_csv_file(
             height=_to_number(
                 site_row.get(SiteKey.HEIGHT, None), SiteKey.HEIGHT
             ),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From 536a8faf157a5d7c1bcaec343e3ea91cde11dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 46/70] fix: skip empty fields when several KML fields match

---
 terragraph_planner/common/data_io/kml_library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 9b6158c..23f6461 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -42,7 +42,9 @@ def _get_feature_field(
             and feature.IsFieldSetAndNotNull(idx)
         ):
             # A field may be declared as a number
-            return feature.GetFieldAsString(idx)
+            value = feature.GetFieldAsString(idx)
+            if len(value) > 0:
+                return value
     return ""
 
 
-- 
2.43.0


From f97b20e7cf016b0d23fe00439ed9bfdcb0f5b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 47/70] fix: keep zero elevations when elevation data is
 written

---
 terragraph_planner/common/data_io/elevation_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 30bbfb4..a35b191 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -78,8 +78,10 @@ class ElevationLoader(DataValidator[Elevation]):
                 outds.SetSpatialRef(data.spatial_reference)
 
                 outband = outds.GetRasterBand(1)
-                outband.WriteArray(data.data_matrix)
+                # GDAL leaves out blocks of zeros unless it knows the no data
+                # value before the data is written
                 outband.SetNoDataValue(NO_DATA_VALUE)
+                outband.WriteArray(data.data_matrix)
                 outband.FlushCache()
 
                 outband = None
-- 
2.43.0


From e1ada00cc7fb7c3f10d80542e1469bb679a331d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 48/70] fix: report read errors of GeoTIFF files

---
 .../common/data_io/elevation_loader.py        | 71 ++++++++++---------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index a35b191..1270f2e 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -112,44 +112,45 @@ class ElevationLoader(DataValidator[Elevation]):
         - Crop the geotiff into utm_bounding_box
         """
         try:
-            ds_list = []
-            for source in sources:
-                ds_list.append(gdal.Open(source))
-
-            ds = gdal.Warp(
-                "",
-                ds_list,
-                format="MEM",
-                dstSRS=f"EPSG:{utm_epsg_code}",
-                dstNodata=NO_DATA_VALUE,
-                srcNodata=None,
-            )
+            with raise_gdal_errors():
+                ds_list = []
+                for source in sources:
+                    ds_list.append(gdal.Open(source))
+
+                ds = gdal.Warp(
+                    "",
+                    ds_list,
+                    format="MEM",
+                    dstSRS=f"EPSG:{utm_epsg_code}",
+                    dstNodata=NO_DATA_VALUE,
+                    srcNodata=None,
+                )
 
-            # Crop the geotiff into boundary bounding box
-            geotransform = ds.GetGeoTransform()
-            x_resolution = round(
-                math.sqrt(geotransform[1] ** 2 + geotransform[4] ** 2), 6
-            )
-            y_resolution = round(
-                math.sqrt(geotransform[2] ** 2 + geotransform[5] ** 2), 6
-            )
+                # Crop the geotiff into boundary bounding box
+                geotransform = ds.GetGeoTransform()
+                x_resolution = round(
+                    math.sqrt(geotransform[1] ** 2 + geotransform[4] ** 2), 6
+                )
+                y_resolution = round(
+                    math.sqrt(geotransform[2] ** 2 + geotransform[5] ** 2), 6
+                )
 
-            ds = gdal.Translate(
-                "",
-                ds,
-                projWin=(
-                    utm_bounding_box.min_utm_x,
-                    utm_bounding_box.max_utm_y,
-                    utm_bounding_box.max_utm_x,
-                    utm_bounding_box.min_utm_y,
-                ),
-                xRes=x_resolution,
-                yRes=y_resolution,
-                format="MEM",
-                noData=NO_DATA_VALUE,
-            )
+                ds = gdal.Translate(
+                    "",
+                    ds,
+                    projWin=(
+                        utm_bounding_box.min_utm_x,
+                        utm_bounding_box.max_utm_y,
+                        utm_bounding_box.max_utm_x,
+                        utm_bounding_box.min_utm_y,
+                    ),
+                    xRes=x_resolution,
+                    yRes=y_resolution,
+                    format="MEM",
+                    noData=NO_DATA_VALUE,
+                )
 
-            geotransform = ds.GetGeoTransform()
+                geotransform = ds.GetGeoTransform()
         except Exception:
             raise DataException("Error encountered when loading GeoTIFF")
 
-- 
2.43.0


From 64b6ac17461336c943aed3a1bea3fd960675f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 49/70] fix: read the collection time of GeoTIFF files

---
 .../common/data_io/elevation_loader.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 1270f2e..c2a0f59 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -6,6 +6,7 @@
 import logging
 import math
 import os
+from copy import copy
 from itertools import chain
 from typing import List
 
@@ -116,6 +117,14 @@ class ElevationLoader(DataValidator[Elevation]):
                 ds_list = []
                 for source in sources:
                     ds_list.append(gdal.Open(source))
+                # GDAL does not keep the different times of merged files
+                collection_times = sorted(
+                    {
+                        ds.GetMetadataItem("TIFFTAG_DATETIME")
+                        for ds in ds_list
+                    }
+                    - {None}
+                )
 
                 ds = gdal.Warp(
                     "",
@@ -162,13 +171,17 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
-            if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
-            else None,
+            collection_times[0] if len(collection_times) > 0 else None,
         )
 
         logger.info(f"The geotiff file(s) {sources} has been loaded.")
         self.validate(elevation)
+        for collection_time in collection_times[1:]:
+            source_elevation = copy(elevation)
+            source_elevation.collection_time = collection_time
+            self.errors += ElevationRules(
+                source_elevation
+            ).has_recent_collection_time_rule()
 
         return elevation
 
-- 
2.43.0


From af746a10a16090a7fd55b7c40726c166473218a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 50/70] fix: adding and subtracting elevations keeps places
 without data void

---
 terragraph_planner/los/elevation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..30a4f41 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -281,10 +281,24 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _get_void_mask(
+        self, other_geogrids: "Elevation"
+    ) -> npt.NDArray[np.bool_]:
+        """
+        The grids where at least one of the two has no data
+        """
+        return (self.data_matrix == NO_DATA_VALUE) | (
+            other_geogrids.data_matrix == NO_DATA_VALUE
+        )
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                np.where(
+                    self._get_void_mask(other_geogrids),
+                    NO_DATA_VALUE,
+                    self.data_matrix + other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -302,7 +316,11 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                np.where(
+                    self._get_void_mask(other_geogrids),
+                    NO_DATA_VALUE,
+                    self.data_matrix - other_geogrids.data_matrix,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From 2b8ffb0b49fc12f37dc935ffe8a970438b4df46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 51/70] fix: report GeoTIFF tags that cannot be read

---
 terragraph_planner/common/data_io/patterns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/patterns.py b/terragraph_planner/common/data_io/patterns.py
index 6b520de..10eb5d2 100644
--- a/terragraph_planner/common/data_io/patterns.py
+++ b/terragraph_planner/common/data_io/patterns.py
@@ -25,7 +25,8 @@ def raise_gdal_errors() -> Iterator[None]:
     errors: List[str] = []
 
     def _handle_error(error_class: int, error_num: int, message: str) -> None:
-        if error_class >= gdal.CE_Failure:
+        # Tags that cannot be read are only warned about
+        if error_class >= gdal.CE_Failure or "IO error" in message:
             errors.append(message)
 
     gdal.PushErrorHandler(_handle_error)
-- 
2.43.0


From ca5d1395546ce0d06f8969ce7a6fa550d777afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 52/70] fix: read elevations of any type as floating point
 numbers

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index c2a0f59..fbfbf1f 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -133,6 +133,8 @@ class ElevationLoader(DataValidator[Elevation]):
                     dstSRS=f"EPSG:{utm_epsg_code}",
                     dstNodata=NO_DATA_VALUE,
                     srcNodata=None,
+                    # Neither voids nor sums fit into the types of some files
+                    outputType=gdal.GDT_Float32,
                 )
 
                 # Crop the geotiff into boundary bounding box
-- 
2.43.0


From fcf2eb053ade1037bc310d80df9aa28b33ded86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 53/70] fix: refuse GeoTIFF files without projection or with
 several bands

---
 .../common/data_io/elevation_loader.py        | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index fbfbf1f..b309a7a 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -18,7 +18,7 @@ from terragraph_planner.common.data_io.patterns import (
     DataValidator,
     raise_gdal_errors,
 )
-from terragraph_planner.common.exceptions import DataException
+from terragraph_planner.common.exceptions import DataException, planner_assert
 from terragraph_planner.common.structs import UTMBoundingBox
 from terragraph_planner.los.elevation import Elevation
 
@@ -117,6 +117,8 @@ class ElevationLoader(DataValidator[Elevation]):
                 ds_list = []
                 for source in sources:
                     ds_list.append(gdal.Open(source))
+                for source, ds in zip(sources, ds_list):
+                    self._validate_source(source, ds)
                 # GDAL does not keep the different times of merged files
                 collection_times = sorted(
                     {
@@ -162,6 +164,8 @@ class ElevationLoader(DataValidator[Elevation]):
                 )
 
                 geotransform = ds.GetGeoTransform()
+        except DataException:
+            raise
         except Exception:
             raise DataException("Error encountered when loading GeoTIFF")
 
@@ -187,6 +191,21 @@ class ElevationLoader(DataValidator[Elevation]):
 
         return elevation
 
+    def _validate_source(self, source: str, ds: gdal.Dataset) -> None:
+        """
+        What cannot be told from the merged and projected data any more
+        """
+        planner_assert(
+            ds.GetSpatialRef() is not None,
+            f"GeoTIFF: {source} has no projection information.",
+            DataException,
+        )
+        planner_assert(
+            ds.RasterCount == 1,
+            f"GeoTIFF: {source} must have exactly one raster band.",
+            DataException,
+        )
+
     def validate(self, gis_data: Elevation) -> None:
         rules = ElevationRules(gis_data)
         self.errors += list(
-- 
2.43.0


From 3d16bbcb5719d5ec3d3489084efe89eafb86514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 54/70] fix: keep the planning order independent of the input
 order when POPs are proposed

---
 terragraph_planner/optimization/topology_optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index f66f743..e4bcee3 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -160,6 +160,10 @@ def optimize_topology(topology: Topology, params: OptimizerParams) -> None:
     # Propose some extra POPs if necessary
     _run_propose_extra_pops_step(topology, params)
 
+    # The proposed POPs and their links are appended to the topology, so
+    # normalize it again
+    topology.sort()
+
     # Mark disconnected components and those that exceed max hops from POPs
     # as unreachable
     mark_unreachable_components(
-- 
2.43.0


From 3dc2e4fb753abe3a5bc07b80bb512419767d4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 55/70] fix: orient sectors independently of the listing order
 of the neighbors

---
 .../optimization/topology_preparation.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index a51d45e..e0438c9 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -190,7 +190,12 @@ def create_dn_sectors(topology: Topology) -> None:
         sector_params = site.device.sector_params
         nodes = find_best_sectors(
             site=site,
-            neighbor_site_list=topology.get_wireless_successor_sites(site),
+            # Equally good orientations are decided by rounding, so the sum
+            # over the neighbors must not depend on the listing order
+            neighbor_site_list=sorted(
+                topology.get_wireless_successor_sites(site),
+                key=lambda neighbor: neighbor.site_id,
+            ),
             number_of_nodes=site.device.number_of_nodes_per_site,
             number_of_sectors_per_node=sector_params.number_sectors_per_node,
             horizontal_scan_range=sector_params.horizontal_scan_range,
@@ -248,7 +253,10 @@ def create_cn_sectors(topology: Topology) -> None:
         sector_params = site.device.sector_params
         nodes = find_best_equidistant_sectors(
             site=site,
-            neighbor_site_list=cn_wireless_neighbor_sites.get(site_id, []),
+            neighbor_site_list=sorted(
+                cn_wireless_neighbor_sites.get(site_id, []),
+                key=lambda neighbor: neighbor.site_id,
+            ),
             number_of_nodes=site.device.number_of_nodes_per_site,  # Forced to 1 in sector parameters
             number_of_sectors_per_node=sector_params.number_sectors_per_node,
             horizontal_scan_range=sector_params.horizontal_scan_range,
-- 
2.43.0


From 61cb2c0ffe50cb1d7cb19860163b6b6f124f9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 56/70] fix: look up areas that reach over the edge of the
 elevation data

---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 30a4f41..5576120 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -261,8 +261,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # Negative indices would count from the other end
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From 63fd0afb07ecc1dbcaffbe5d9fd76dc8d37a1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 57/70] fix: fill a grid without elevation independently of the
 location asked first

---
 terragraph_planner/los/elevation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 5576120..67a4a5d 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -131,11 +131,14 @@ class Elevation(GISData):
         idx_x, idx_y = self.utm_to_idx(x, y)
         if 0 <= idx_x < self.x_size and 0 <= idx_y < self.y_size:
             # If there's no data in that grid, use find_closest_valid_elevation to get
-            # the closest valid elevation
+            # the closest valid elevation. It is kept for the whole grid, so it must
+            # not depend on where in the grid the first location is
             if self.data_matrix[idx_y, idx_x] == NO_DATA_VALUE:
                 self.data_matrix[
                     idx_y, idx_x
-                ] = self.find_closest_valid_elevation([(x, y)])[0]
+                ] = self.find_closest_valid_elevation(
+                    [self.idx_to_utm(idx_x, idx_y)]
+                )[0]
             return self.data_matrix[idx_y, idx_x]
         raise DataException("get_value() error: out of index")
 
-- 
2.43.0


From 276e5ff17dabe2384b1e97f08868683904f86dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 58/70] fix: notice elevation data that GDAL did not write
 completely

---
 terragraph_planner/common/data_io/elevation_loader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index b309a7a..7009406 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -10,6 +10,7 @@ from copy import copy
 from itertools import chain
 from typing import List
 
+import numpy as np
 from osgeo import gdal
 
 from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
@@ -87,6 +88,15 @@ class ElevationLoader(DataValidator[Elevation]):
 
                 outband = None
                 outds = None
+
+                # GDAL does not report every failing write
+                written = gdal.Open(temp_file_path).ReadAsArray()
+                if not np.array_equal(
+                    written,
+                    np.asarray(data.data_matrix, dtype=np.float32),
+                    equal_nan=True,
+                ):
+                    raise DataException("The written elevations are incomplete")
             os.replace(temp_file_path, dest_file_path)
         except Exception:
             if os.path.exists(temp_file_path):
-- 
2.43.0


From d0ee20d6ba9c7fa0e60d6b137883f0978846202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 59/70] fix: notice building outlines that OGR did not write
 completely

---
 .../common/data_io/building_group_loader.py   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index d6ba266..8f89149 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -10,6 +10,7 @@ import zipfile
 from itertools import chain
 from typing import List
 
+import numpy as np
 from osgeo import ogr, osr
 from shapely import geometry, wkt
 
@@ -148,6 +149,24 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
                 output_feature = None
             output_ds = None
 
+            # OGR does not report every failing write
+            written_ds = driver.Open(output_shp)
+            written_polygons = [
+                wkt.loads(feature.GetGeometryRef().ExportToWkt())
+                for feature in written_ds.GetLayer()
+            ]
+            written_ds = None
+            if len(written_polygons) != len(buildings.building_list) or any(
+                not np.allclose(
+                    (*written.bounds, written.area),
+                    (*building.polygon.bounds, building.polygon.area),
+                )
+                for written, building in zip(
+                    written_polygons, buildings.building_list
+                )
+            ):
+                raise DataException("The written buildings are incomplete")
+
         # Create an ESRI.prj file
         buildings.spatial_reference.MorphFromESRI()
         with open(os.path.join(output_dir, "buildings.prj"), "w") as prj_file:
-- 
2.43.0


From 5e6488415e54f0746190110a730f2d2a35b7eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 60/70] fix: uniform demand of networks next to the
 antimeridian

---
 .../optimization/topology_demand.py           | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..5fee7be 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -127,16 +127,14 @@ def _add_uniform_demand_sites(
     ) and any(
         site.longitude <= -180 + delta for site in topology.sites.values()
     )
-    left = min(
-        site.longitude
+    longitudes = [
+        site.longitude + 360
+        if antimeridian and site.longitude < 0
+        else site.longitude
         for site in topology.sites.values()
-        if not antimeridian or site.longitude >= 180 - delta
-    )
-    right = max(
-        site.longitude
-        for site in topology.sites.values()
-        if not antimeridian or site.longitude <= -180 + delta
-    )
+    ]
+    left = min(longitudes)
+    right = max(longitudes)
     bottom = min(site.latitude for site in topology.sites.values())
     top = max(site.latitude for site in topology.sites.values())
 
@@ -148,21 +146,25 @@ def _add_uniform_demand_sites(
     top += dy
 
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
+        # The buffer can lie beyond the antimeridian even if no site does
+        wrapped_longitude = longitude
+        if longitude > 180:
+            wrapped_longitude -= 360
+        elif longitude < -180:
+            wrapped_longitude += 360
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude, longitude=wrapped_longitude
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 2e9ee25a453d3fddffc295b97335d0e6178bb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 61/70] fix: accept nodes whose sectors lie on both sides of
 north

---
 .../optimization/topology_preparation.py         | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index e0438c9..314f98d 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -432,19 +432,9 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
         sin_sum = sum([math.sin(math.radians(a)) for a in azimuths])
         cos_sum = sum([math.cos(math.radians(a)) for a in azimuths])
         circ_mean = math.degrees(math.atan2(sin_sum, cos_sum)) % 360
-        l1 = [
-            a
-            for a in azimuths
-            if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
-        ]
-        l1.sort()
-        l2 = [
-            a
-            for a in azimuths
-            if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
-        ]
-        l2.sort()
-        sector_azimuths[node_id] = l1 + l2
+        sector_azimuths[node_id] = sorted(
+            azimuths, key=lambda a: angle_delta(a, circ_mean)
+        )
 
     # First verify that each sector within the node are exactly horizontal scan
     # range apart. Note: azimuths should already be sorted
-- 
2.43.0


From 66c2a2d95b941461834d50a3138e70c10b43a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 62/70] fix: accept setting names with spaces around them
 everywhere

---
 terragraph_planner/common/configuration/configs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..554ce6f 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -89,7 +89,9 @@ class ConfigParser:
         @return: instance of cls
         """
         args = getfullargspec(cls.__init__).args
-        prop_dict_lower = {k.casefold(): v for k, v in propdict.items()}
+        prop_dict_lower = {
+            k.strip().casefold(): v for k, v in propdict.items()
+        }
         func_arg_val = {}
         for key, value in prop_dict_lower.items():
             # Enable case in-sensitive
@@ -135,8 +137,9 @@ class ConfigParser:
                             raise Exception(f"Unexpected input objects: {err}")
             elif isinstance(value, dict):
                 for sub_key, sub_value in value.items():
-                    if sub_key.casefold() in set(args):
-                        func_arg_val[sub_key.casefold()] = sub_value
+                    sub_key = sub_key.strip().casefold()
+                    if sub_key in set(args):
+                        func_arg_val[sub_key] = sub_value
         # If the input key has None value, use the default value in the class constructor
         return cls(
             **{key: val for key, val in func_arg_val.items() if val is not None}
-- 
2.43.0


From de1ddafec664050e4157acb2d29b03c9cc9c9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 63/70] fix: config sections in any case, and blank ones with
 their defaults

---
 terragraph_planner/common/configuration/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/configuration/utils.py b/terragraph_planner/common/configuration/utils.py
index c33c81f..0779c40 100644
--- a/terragraph_planner/common/configuration/utils.py
+++ b/terragraph_planner/common/configuration/utils.py
@@ -88,7 +88,12 @@ def _load_dict_from_file(
         origin = yaml.safe_load(fi)
         _detect_typo(data, origin)
 
-    return data
+    # The section names are case-insensitive as well, and all the fields of a
+    # blank section have their default values
+    return {
+        name.strip().upper(): {} if section is None else section
+        for name, section in data.items()
+    }
 
 
 def struct_objects_from_file(obj_name: str, file_path: str) -> ConfigParser:
-- 
2.43.0


From e4272eafcd8cecaab27ceb15d43e76a96f380309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 64/70] fix: devices with all the sector parameters at their
 defaults

---
 terragraph_planner/common/configuration/configs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 554ce6f..5606620 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -92,6 +92,12 @@ class ConfigParser:
         prop_dict_lower = {
             k.strip().casefold(): v for k, v in propdict.items()
         }
+        # All the sector parameters of a device can be omitted
+        if (
+            "sector_params" in args
+            and prop_dict_lower.get("sector_params") is None
+        ):
+            prop_dict_lower["sector_params"] = {}
         func_arg_val = {}
         for key, value in prop_dict_lower.items():
             # Enable case in-sensitive
-- 
2.43.0


From e44275f9d955b9e75a6511e7182ed94ac139a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 65/70] fix: check the time limit of the coverage optimization
 as well

---
 terragraph_planner/common/configuration/configs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 5606620..7c45966 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -690,6 +690,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             min_cost_max_time > 0
             and redundancy_max_time > 0
+            and max_coverage_max_time > 0
             and interference_max_time > 0
             and pop_proposal_max_time > 0
             and demand_site_max_time > 0,
-- 
2.43.0


From c4c5588f251e1970ff135c9bdc57f4d1fd4660b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 66/70] fix: antenna pattern files with blank rows

---
 terragraph_planner/common/data_io/csv_library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index c027b7e..0775637 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -326,6 +326,8 @@ def read_antenna_pattern_data(
         data = data.replace("", pd.NA)
         # drop columns and rows filled with NA values
         data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
+        # the rows are looked up by position below
+        data = data.reset_index(drop=True)
     except Exception:
         planner_assert(
             False,
-- 
2.43.0


From c709c9eec8c20ec6635093e8635d64e98adfa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 67/70] fix: keep the settings and the log when the log file
 cannot be opened

---
 terragraph_planner/common/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/common/utils.py b/terragraph_planner/common/utils.py
index 2ef3520..5dc45be 100644
--- a/terragraph_planner/common/utils.py
+++ b/terragraph_planner/common/utils.py
@@ -32,12 +32,15 @@ def deterministic_hash(*args: Union[float, int, str, bool, None]) -> str:
 def set_root_logger(
     logger_level: LoggerLevel, log_file: Optional[str], to_stderr: bool
 ) -> None:
+    # Nothing has changed yet if the log file cannot be opened
+    file_handler = (
+        logging.FileHandler(log_file) if log_file is not None else None
+    )
     logger = logging.getLogger()
     logger.setLevel(logger_level.value)
     while logger.hasHandlers():
         logger.removeHandler(logger.handlers[0])
-    if log_file is not None:
-        file_handler = logging.FileHandler(log_file)
+    if file_handler is not None:
         file_handler.setFormatter(
             logging.Formatter("%(asctime)s - %(levelname)s - %(message)s")
         )
@@ -54,14 +57,14 @@ def set_system_control_with_config_file(config_file_path: str) -> None:
     system_params = assert_is_instance(
         struct_objects_from_file(SYSTEM, config_file_path), SystemParams
     )
+    set_root_logger(
+        system_params.logger_level,
+        system_params.log_file,
+        system_params.log_to_stderr,
+    )
     global current_system_params
     current_system_params.output_dir = system_params.output_dir
     current_system_params.debug_mode = system_params.debug_mode
     current_system_params.logger_level = system_params.logger_level
     current_system_params.log_file = system_params.log_file
     current_system_params.log_to_stderr = system_params.log_to_stderr
-    set_root_logger(
-        system_params.logger_level,
-        system_params.log_file,
-        system_params.log_to_stderr,
-    )
-- 
2.43.0


From be20c6bac87989872a5bb530257616b3d051c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 68/70] fix: close the log file that is no longer used

---
 terragraph_planner/common/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/utils.py b/terragraph_planner/common/utils.py
index 5dc45be..f35b0b8 100644
--- a/terragraph_planner/common/utils.py
+++ b/terragraph_planner/common/utils.py
@@ -39,7 +39,10 @@ def set_root_logger(
     logger = logging.getLogger()
     logger.setLevel(logger_level.value)
     while logger.hasHandlers():
-        logger.removeHandler(logger.handlers[0])
+        handler = logger.handlers[0]
+        logger.removeHandler(handler)
+        if isinstance(handler, logging.FileHandler):
+            handler.close()
     if file_handler is not None:
         file_handler.setFormatter(
             logging.Formatter("%(asctime)s - %(levelname)s - %(message)s")
-- 
2.43.0


From d77615cb973a0e2b4903c1a4d7092d47c211261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 69/70] fix: disjoint paths for redundancy start from the POPs
 of the network only

---
 .../optimization/ilp_models/redundancy_optimization.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 6d558a3..d34adf5 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -669,6 +669,7 @@ def compute_candidate_edges_for_redundancy(
         return ("_out", node_id)
 
     G = nx.DiGraph()
+    G.add_node(SUPERSOURCE)
     for site_id, site in topology.sites.items():
         if site.status_type in StatusType.inactive_status():
             continue
@@ -676,6 +677,13 @@ def compute_candidate_edges_for_redundancy(
         if site.site_type not in SiteType.dist_site_types():
             continue
 
+        # POPs outside of the base network cannot be added for redundancy
+        if (
+            site.site_type == SiteType.POP
+            and site.status_type not in StatusType.active_status()
+        ):
+            continue
+
         # For node-disjoint paths, each node is split into an incoming edges
         # node and a outgoing edges node with a single edge of unit capacity
         # between them (except for POPs with pop_source_capacity)
-- 
2.43.0


From 4d3e77541e34eb01bbe8ddaae0e28a6090aacde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 70/70] fix: redundancy of networks with all the DNs on a line

---
 .../ilp_models/redundancy_optimization.py     | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index d34adf5..d6e14d2 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -801,21 +801,26 @@ def compute_candidate_edges_for_redundancy(
         if len(dns) > 2:
             # Compute Delaunay triangulation (in 2D space)
             # Note: two proposed DNs with the same lat/lon should not occur
-            tri = Delaunay(
-                np.array(
+            points = np.array(
+                [
                     [
-                        [
-                            topology.sites[dn].latitude,
-                            topology.sites[dn].longitude,
-                        ]
-                        for dn in dns
+                        topology.sites[dn].latitude,
+                        topology.sites[dn].longitude,
                     ]
-                )
+                    for dn in dns
+                ]
             )
+            try:
+                simplices = Delaunay(points).simplices
+            except RuntimeError:
+                # Points on a line have no triangulation (QhullError), so
+                # connect each of them to the next one on the line
+                order = np.lexsort(points.T)
+                simplices = list(zip(order, order[1:]))
 
             # Build graph from Delaunay triangulation
             delaunay_graph = nx.Graph()
-            for T in tri.simplices:
+            for T in simplices:
                 nx.add_cycle(delaunay_graph, T)
 
             # Pair vertices together that are one hop or two hops away in
-- 
2.43.0

