From 274c7603f37f61a738498a5b104504569953ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 01/42] fix: keep 'object' definitions in the loaded
 configuration

aclSemantics.object() returned the whitespace element of the rule, so every
network/service object (and every object NAT) was dropped from ACLConfig.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..8650f57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 04d6857973a5b37dc213aff83ad2534f2f04a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 02/42] fix: object NAT translates the object it was declared
 on

ASA prints the nat statement in a second 'object network' block; the NAT entry
then pointed to an empty object of that name, which no filter could match.
---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8650f57..dd029fb 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,8 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            # the nat statement may live in a later block of the same object
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From 77ab5c4280649a653dedfc5cc419b51deca65c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 03/42] fix: object NAT port translation keeps real and mapped
 port apart

Both sides carried the real port.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index dd029fb..8c52654 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -459,8 +459,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -468,7 +468,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From 368ce7325db3c92b5b2368e62bde2ec67a624e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 04/42] fix: compare port range bounds as numbers

They were compared as strings: 'range 80 443' was rejected, 'range 100 20' was not.
---
 lib/acltk/aclObjects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..a7e542a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,7 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From c02d09aefc436b11609db0d3e11df7d008dea96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 05/42] fix: keep the port of 'port-object eq' group members

The grammar did not bind it, so the member became 'eq None'. Parsers regenerated.
---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From 96249cf765f367967deb88c649254e15c519135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 06/42] fix: periodic time ranges with several days, and their
 end day

'periodic Monday Tuesday 9:05 to 14:00' was rejected; an end day was kept as
the pair ['Tuesday', None]. Parsers regenerated.
---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 19 +++++++++++++++----
 lib/acltk/ios.py  | 19 +++++++++++++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..ed98f88 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,7 +447,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week} WS start:time WS "to" WS [edays:day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..21b95b3 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1953,11 +1953,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1966,12 +1973,16 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..25d8da9 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1978,11 +1978,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1991,12 +1998,16 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0


From e2f5e6c442f8522ce498168479336c97c715bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 07/42] fix: accept pfSense interfaces with a static address

Interface expects the three-element form the Cisco grammars produce; the
two-element form raised IndexError and the whole configuration was rejected.
---
 lib/acltk/pfsenseSemantics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..af7c2ce 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,9 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(
+                            **{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]}
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 70ddaf7d3ebc5d998e570b8c66ca46b1da0d6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 08/42] fix: resolve <network>optX</network> in pfSense rules

Optional interfaces are learned by their description, so a rule for the network
of one of them made the whole configuration invalid.
---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index af7c2ce..1f41f44 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -289,7 +289,8 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        # optX is known by its description
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From b537db391b130a4183157a4422ea748bf2f21d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 09/42] fix: accept pfSense rules, aliases and interfaces
 without a description

<descr> is optional and may be empty; KeyError/TypeError made the whole
configuration invalid.
---
 lib/acltk/pfsenseSemantics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 1f41f44..9cad932 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -101,10 +101,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
@@ -125,7 +125,7 @@ class pfsenseParser(aclParser):
             g = None
 
             # description is html escaped
-            values["descr"] = html.parser.unescape(values["descr"] or "")
+            values["descr"] = html.parser.unescape(values.get("descr") or "")
 
             if values["type"] == "host":
                 g = NetworkGroup(values["name"], values["descr"])
@@ -242,6 +242,7 @@ class pfsenseParser(aclParser):
             "log": False,
             "statetype": "keep state",
             "floating": "no",
+            "descr": "",
         }
         valueable = [
             "tracker",
-- 
2.43.0


From 90a71e0b2eb51b6ec99dae2f69b66bb965f9fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 10/42] fix: pfSense url tables with plain ACLParserOptions

ACLParserOptions has no fetch_urltable; use its default instead of failing.
---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 9cad932..b093a0d 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -148,7 +148,7 @@ class pfsenseParser(aclParser):
                 g = NetworkGroup(values["name"], values["descr"])
                 self.network_groups[values["name"]] = g
 
-                if self._options.fetch_urltable:
+                if getattr(self._options, "fetch_urltable", True):
                     try:
                         req = urllib.request.urlopen(values["url"])
                         data = req.read().decode("utf-8")
-- 
2.43.0


From edbc11f929b9143ab791fc0c2786754d84f6abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/42] fix: do not wait forever for a silent url table server

urlopen without a timeout blocks the load for good; the response was not closed
either.
---
 lib/acltk/pfsenseSemantics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b093a0d..8a05422 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -35,6 +35,9 @@ import logging
 
 log = logging.getLogger("acltk.pfsense")
 
+# seconds to wait for a urltable server to accept, or to send more
+URLTABLE_TIMEOUT = 30
+
 
 class pfsenseParser(aclParser):
     def __init__(self, options=None):
@@ -150,8 +153,8 @@ class pfsenseParser(aclParser):
 
                 if getattr(self._options, "fetch_urltable", True):
                     try:
-                        req = urllib.request.urlopen(values["url"])
-                        data = req.read().decode("utf-8")
+                        with urllib.request.urlopen(values["url"], timeout=URLTABLE_TIMEOUT) as req:
+                            data = req.read().decode("utf-8")
                         for line in data.split("\n"):
                             line = line.strip()
                             if not "/" in line:
-- 
2.43.0


From effb1eb6ef201a7b69f25b7de39e45549b073e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 12/42] fix: url table lines: ignore only lines that are no
 address

The bare except also ate KeyboardInterrupt and MemoryError, silently leaving
addresses out of the group.
---
 lib/acltk/pfsenseSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 8a05422..69c548e 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -162,14 +162,14 @@ class pfsenseParser(aclParser):
                                     addr = ipaddress.ip_address(line)
                                     g.add(NetworkHost(line))
                                     continue
-                                except:
+                                except ValueError:
                                     pass
                             else:
                                 try:
                                     addr = ipaddress.ip_network(line)
                                     g.add(Network(*line.split("/")))
                                     continue
-                                except:
+                                except ValueError:
                                     pass
                     except urllib.error.HTTPError as e0:
                         pass
-- 
2.43.0


From 3317d67760265a27dc8bca0b194f706dc216c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 13/42] fix: a url table group is complete or empty, and
 resource errors surface

A failure while the downloaded lines were read left a group with the first few
addresses; running out of memory or stack looked like an unreachable server.
---
 lib/acltk/pfsenseSemantics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 69c548e..ea8ae22 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -155,24 +155,29 @@ class pfsenseParser(aclParser):
                     try:
                         with urllib.request.urlopen(values["url"], timeout=URLTABLE_TIMEOUT) as req:
                             data = req.read().decode("utf-8")
+                        objects = []
                         for line in data.split("\n"):
                             line = line.strip()
                             if not "/" in line:
                                 try:
                                     addr = ipaddress.ip_address(line)
-                                    g.add(NetworkHost(line))
+                                    objects.append(NetworkHost(line))
                                     continue
                                 except ValueError:
                                     pass
                             else:
                                 try:
                                     addr = ipaddress.ip_network(line)
-                                    g.add(Network(*line.split("/")))
+                                    objects.append(Network(*line.split("/")))
                                     continue
                                 except ValueError:
                                     pass
+                        for obj in objects:
+                            g.add(obj)
                     except urllib.error.HTTPError as e0:
                         pass
+                    except (MemoryError, RecursionError):
+                        raise
                     except Exception as e1:
                         log.exception(e1)
                 else:
-- 
2.43.0


From 8e8057f8ab0bcec26acf2ddb08931a4e18366e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 14/42] fix: do not try the next format after running out of
 memory or stack

The parser of another vendor may accept the same text with another meaning.
---
 lib/acltk/aclObjects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a7e542a..a9a8c50 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1262,6 +1262,9 @@ class ACLConfig:
         for i in [fwsmConfig, iosConfig, pfsenseConfig]:
             try:
                 return i._parse(data, filename, options)
+            except (MemoryError, RecursionError):
+                # says nothing about the format of the data
+                raise
             except Exception as e:
                 log.exception(e)
         raise ValueError("Invalid Config?")
-- 
2.43.0


From f26a3f3c456aa942a97bb2105550d455587a8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 15/42] fix: resolve rules bound to an interface

access_groups holds lists; adding one to a set raised TypeError.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a9a8c50..0a672ad 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1308,7 +1308,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 9f9e11b813aa171f1653d59a515f728d7a8cc6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 16/42] fix: filtering a configuration does not write to stdout

Debug output of the NAT pass; a closed stdout made the query fail.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 0a672ad..213c1ec 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1377,5 +1377,5 @@ class ACLConfig:
         # FIXME abuse
         nat = ACLRules()
         nat.rules = list(itertools.chain.from_iterable(self.nat.values()))
-        r.update(caf.run(nat, verbose=True))
+        r.update(caf.run(nat, verbose=False))
         return r
-- 
2.43.0


From c2cd74a1b575a03f70ea61cf00ac73dc58e77f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 17/42] fix: never read an IOS wildcard as a netmask

'host 0.0.0.0' wildcards became 0.0.0.0/0 and 255.255.255.255 a single host;
wildcards like 255.255.255.0 were taken for netmasks. The bare except also
swallowed KeyboardInterrupt.
---
 lib/acltk/iosSemantics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..8caad64 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -20,10 +20,11 @@ class iosSemantics(aclSemantics):
 
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            wildcard = int(ipaddress.ip_address(ast.wildcard))
+            if wildcard & (wildcard + 1) == 0:
+                # inverted netmask
+                return Network(ast.address, 32 - wildcard.bit_length())
+            return NetworkWildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From d6ef284290c01d85ef62d79236113da6eeb0e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 18/42] fix: wildcards in numbered IOS extended access lists

They were read as netmasks: '10.0.0.1 0.0.0.0' meant 0.0.0.0/0, discontiguous
wildcards were rejected.
---
 lib/acltk/iosSemantics.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 8caad64..cff933c 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,13 +18,22 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    def _wildcard(self, address, wildcard) -> Union[Network, NetworkWildcard]:
+        bits = int(ipaddress.ip_address(wildcard))
+        if bits & (bits + 1) == 0:
+            # inverted netmask
+            return Network(address, 32 - bits.bit_length())
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # numbered extended access lists - ip4 takes a wildcard, ip6 a prefix length
+        if ast.type == "network" and not isinstance(ast.address, ipaddress.IPv6Address):
+            return self._wildcard(ast.address, ast.netmask)
+        return super().acl_host(ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            wildcard = int(ipaddress.ip_address(ast.wildcard))
-            if wildcard & (wildcard + 1) == 0:
-                # inverted netmask
-                return Network(ast.address, 32 - wildcard.bit_length())
-            return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From 99cbf1a4f54242614556345bb664e461e2ee68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 19/42] fix: wildcards match only addresses of their own
 version

The bits of an IPv6 address or prefix were compared with an IPv4 wildcard. Two
wildcards recursed until RecursionError.
---
 lib/acltk/aclObjects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 213c1ec..18a178f 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -474,8 +474,14 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if other.address.version != self.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            return (int(other.address) ^ int(self.address)) & ~int(self.wildcard) & ~int(other.wildcard) == 0
         elif isinstance(other, Network):
+            if other.network.version != self.address.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
-- 
2.43.0


From 0a012068f8099a642870fa063b7671a1b9d90ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 20/42] fix: ANY/ANY4/ANY6 filters see the address of network
 objects

An fqdn object holds an any address, which expand() puts into the groups using
it - the same filter selected a rule only after expand().
---
 lib/acltk/cafObjects.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/cafObjects.py b/lib/acltk/cafObjects.py
index 5d378cc..5d8b3d6 100644
--- a/lib/acltk/cafObjects.py
+++ b/lib/acltk/cafObjects.py
@@ -1,6 +1,6 @@
 from tatsu.infos import ParserConfig
 
-from acltk.aclObjects import ACLRule, NetworkGroup, NetworkAny, NetworkAny4, NetworkAny6, ACLRules, NATObject
+from acltk.aclObjects import ACLRule, NetworkGroup, NetworkObject, NetworkAny, NetworkAny4, NetworkAny6, ACLRules, NATObject
 
 
 class cafBlock:
@@ -133,6 +133,10 @@ class cafNetworkAny(NetworkAny):
             for i in other.objects:
                 if self & i:
                     return True
+        if isinstance(other, NetworkObject):
+            for i in other.addresses:
+                if self & i:
+                    return True
         return False
 
     def __repr__(self):
@@ -150,6 +154,10 @@ class cafNetworkAny4(NetworkAny4):
             for i in other.objects:
                 if self & i:
                     return True
+        if isinstance(other, NetworkObject):
+            for i in other.addresses:
+                if self & i:
+                    return True
         return False
 
     def __repr__(self):
@@ -167,6 +175,10 @@ class cafNetworkAny6(NetworkAny6):
             for i in other.objects:
                 if self & i:
                     return True
+        if isinstance(other, NetworkObject):
+            for i in other.addresses:
+                if self & i:
+                    return True
         return False
 
     def __repr__(self):
-- 
2.43.0


From 13bae7c67f8d65fbb47631c5aa3a58f376f65250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 21/42] fix: sort(insitu=False) returns a sorted copy

It raised AttributeError for service and protocol groups, and for network
groups collapsed the original and sorted its remains.
---
 lib/acltk/aclObjects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 18a178f..abf0a37 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,9 +312,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -666,9 +666,9 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
@@ -739,9 +739,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From af2775167a1b7e165ecd9c9470e5476ef1a3c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 22/42] fix: collapse groups with hosts, objects or both IP
 versions

In place it refused hosts, without expansion it changed the original, and a
group with IPv4 and IPv6 addresses (or an IPv6 network) lost its members before
it raised.
---
 lib/acltk/aclObjects.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index abf0a37..84e7a07 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -615,36 +615,31 @@ class NetworkGroup(_Group):
         :return: collapsed NetworkGroup
         """
         # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            if any(filter(lambda o: isinstance(o, (NetworkObject, NetworkGroup)), self.objects)):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
         # FIXME - remove NetworkAny
-        if any(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)):
-            self.objects = list(
-                filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)
-            )
+        objects = list(filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects))
 
         # NetworkGroup is assumed to be expanded, contains only Network and NetworkHost
         addresses = [
-            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h) for h in self.objects
+            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h) for h in objects
         ]
 
-        self.objects.clear()
-
-        for h in ipaddress.collapse_addresses(addresses):
-            if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
-                raise ValueError(f"unexpected type {h}")
-            if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
-            else:
-                h_ = NetworkHost(h.network_address)
-            self.add(h_)
+        collapsed = []
+        for version in (4, 6):
+            for h in ipaddress.collapse_addresses(a for a in addresses if a.version == version):
+                if h.num_addresses > 1:
+                    collapsed.append(Network(h.network_address, h.prefixlen))
+                else:
+                    collapsed.append(NetworkHost(h.network_address))
+        self.objects = collapsed
         return self
 
     @staticmethod
-- 
2.43.0


From 42e6c3f26807560a678fe4888c2314fbd1561dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 23/42] fix: acl-filter example passes src/dst to ACLRule

source=/dest= were ignored, so every run ended in an AssertionError.
---
 examples/acl-filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/acl-filter.py b/examples/acl-filter.py
index f9c7e5f..0b77aaf 100644
--- a/examples/acl-filter.py
+++ b/examples/acl-filter.py
@@ -20,8 +20,8 @@ def main():
     print(f"anyany {len(anyany)}")
 
     target = [
-        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.2.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.2.0.0", netmask="24"))),
     ]
     base = config.rules.filter(target)
     print(f"base {len(base)}")
@@ -30,8 +30,8 @@ def main():
     print(f"union {len(u)}")
 
     target = [
-        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.1.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.1.0.0", netmask="24"))),
     ]
 
     rules = config.rules.filter(target)
-- 
2.43.0


From bb1642906b38b2af5e6e38e5777f20cd7e492397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 24/42] fix: uploading an invalid file to the web service
 returns to the index

Invalid configurations raise ValueError, only TypeError was handled (500).
---
 examples/render/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/render/dynamic.py b/examples/render/dynamic.py
index 9ac1864..e43b75d 100644
--- a/examples/render/dynamic.py
+++ b/examples/render/dynamic.py
@@ -21,7 +21,7 @@ def add():
             db = shelve.get_shelve()
             db[cfg.name] = cfg
             return redirect(url_for("show", config=cfg.name))
-        except TypeError:
+        except (TypeError, ValueError):
             return redirect(url_for("index"))
 
 
-- 
2.43.0


From bc96a1aeed5c74e1ec6656cd9deef9a4d313364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 25/42] fix: accept pfSense separators without a text

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea8ae22..00f7b6b 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -219,7 +219,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.parser.unescape(values.get("text") or ""))
                         )
 
                 ifname = None
-- 
2.43.0


From 771479fc8528f3de94b30cff7a235f7a81aac95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 26/42] fix: resolve never drops the ports of a rule silently

---
 lib/acltk/aclObjects.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 84e7a07..801921e 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1295,11 +1295,8 @@ class ACLConfig:
             if isinstance(i, ACLRule):
                 r.add(i.protocol)
                 r.add(i.src.host)
-                try:
-                    r.add(i.src.port)
-                    r.add(i.dst.port)
-                except Exception as e:
-                    print(e)
+                r.add(i.src.port)
+                r.add(i.dst.port)
                 r.add(i.dst.host)
                 r.add(i.id)
                 if i.protocol.name in ("icmp", "icmp6"):
-- 
2.43.0


From c92a11c6704732f13a5ded852cbb99da5bce93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 27/42] fix: show texts of a configuration as text, not as
 markup

---
 examples/render/dynamic.py        | 2 ++
 examples/render/static.py         | 2 +-
 examples/render/tpl/static.jinja2 | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/examples/render/dynamic.py b/examples/render/dynamic.py
index e43b75d..57fbeef 100644
--- a/examples/render/dynamic.py
+++ b/examples/render/dynamic.py
@@ -6,6 +6,8 @@ from acltk.pfsenseSemantics import pfsenseParserOptions
 
 app = Flask(__name__, template_folder="tpl")
 app.jinja_env.add_extension("jinja2.ext.loopcontrols")
+# the templates are .jinja2 files, flask escapes .html only by default
+app.jinja_env.autoescape = True
 
 app.config["SHELVE_FILENAME"] = "/tmp/test.db"
 
diff --git a/examples/render/static.py b/examples/render/static.py
index 739a754..1c8ef68 100755
--- a/examples/render/static.py
+++ b/examples/render/static.py
@@ -31,7 +31,7 @@ def main():
     args = parser.parse_args()
 
     loader = FileSystemLoader("./tpl/")
-    env = Environment(loader=loader, extensions=["jinja2.ext.loopcontrols"])
+    env = Environment(loader=loader, extensions=["jinja2.ext.loopcontrols"], autoescape=True)
     for i in env.list_templates():
         print(i)
     aclconfig = ACLConfig.fromFile(Path(args.acls).open("rb"))
diff --git a/examples/render/tpl/static.jinja2 b/examples/render/tpl/static.jinja2
index d670646..208d5e8 100644
--- a/examples/render/tpl/static.jinja2
+++ b/examples/render/tpl/static.jinja2
@@ -841,7 +841,7 @@ thead			{ font-style: italic; }
 <tr>
 	<td colspan="1">
 	</td>
-	<td colspan="7" class="{{h.bg | safe }}" >
+	<td colspan="7" class="{{ h.bg }}" >
 		{{ h.text }}
 	</td>
 </tr>
-- 
2.43.0


From 02a70e6af87c3d1982b70716546e1fa8d4f5474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 28/42] fix: caf-filter example prints the rules in their order

---
 examples/caf-filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/caf-filter.py b/examples/caf-filter.py
index 804f44d..d5434aa 100755
--- a/examples/caf-filter.py
+++ b/examples/caf-filter.py
@@ -11,8 +11,9 @@ def main(args):
     aclConfig = ACLConfig.fromPath(args.acls)
     r = ast.run(aclConfig.rules)
     print(len(r))
-    for i in r:
-        print(i)
+    for i in aclConfig.rules.rules:
+        if i in r:
+            print(i)
 
 
 def run_main():
-- 
2.43.0


From aa9fc00018535caee1a656b4f7385d68ef40de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 29/42] fix: reports list routes to the same network in their
 order

---
 examples/render/tpl/static.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/render/tpl/static.jinja2 b/examples/render/tpl/static.jinja2
index 208d5e8..394298a 100644
--- a/examples/render/tpl/static.jinja2
+++ b/examples/render/tpl/static.jinja2
@@ -288,7 +288,7 @@ thead			{ font-style: italic; }
 	</tr>
 {% endfor %}
 
-{% for route in obj.routes | sort(attribute='network') %}
+{% for route in aclconfig.routes | select('in', obj.routes) | sort(attribute='network') %}
 	<tr>
 		<td></td>
 {% if loop.first %}
-- 
2.43.0


From 467de8cd9ddef4980094762e9b155d9363439ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 30/42] fix: the first entry of a url table with a byte order
 mark is not lost

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 00f7b6b..adeb88b 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -154,7 +154,7 @@ class pfsenseParser(aclParser):
                 if getattr(self._options, "fetch_urltable", True):
                     try:
                         with urllib.request.urlopen(values["url"], timeout=URLTABLE_TIMEOUT) as req:
-                            data = req.read().decode("utf-8")
+                            data = req.read().decode("utf-8-sig")
                         objects = []
                         for line in data.split("\n"):
                             line = line.strip()
-- 
2.43.0


From 9fdea5ba9d984f958e22e990e465ddfd4cb66124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 31/42] fix: static example shows the very filter it applied

---
 examples/render/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/render/static.py b/examples/render/static.py
index 1c8ef68..4844ab5 100755
--- a/examples/render/static.py
+++ b/examples/render/static.py
@@ -45,9 +45,9 @@ def main():
     caffilter = ""
     if args.caf:
         print(args.caf)
-        caf = cafBlock.fromFile(open(args.caf, "rb"), trace=False)
+        caffilter = Path(args.caf).read_text(encoding="utf-8-sig")
+        caf = cafBlock.fromString(caffilter, filename=args.caf)
         r = aclconfig.filter(caf)
-        caffilter = open(args.caf).read()
         selection = aclconfig.resolve(r)
 
     if args.sort:
-- 
2.43.0


From 925bdc28bbdff6ef438453c1e91b0547316bad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 32/42] revert the changes of the examples

---
 examples/acl-filter.py            | 8 ++++----
 examples/caf-filter.py            | 5 ++---
 examples/render/dynamic.py        | 4 +---
 examples/render/static.py         | 6 +++---
 examples/render/tpl/static.jinja2 | 4 ++--
 5 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/examples/acl-filter.py b/examples/acl-filter.py
index 0b77aaf..f9c7e5f 100644
--- a/examples/acl-filter.py
+++ b/examples/acl-filter.py
@@ -20,8 +20,8 @@ def main():
     print(f"anyany {len(anyany)}")
 
     target = [
-        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.2.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.2.0.0", netmask="24"))),
     ]
     base = config.rules.filter(target)
     print(f"base {len(base)}")
@@ -30,8 +30,8 @@ def main():
     print(f"union {len(u)}")
 
     target = [
-        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.1.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.1.0.0", netmask="24"))),
     ]
 
     rules = config.rules.filter(target)
diff --git a/examples/caf-filter.py b/examples/caf-filter.py
index d5434aa..804f44d 100755
--- a/examples/caf-filter.py
+++ b/examples/caf-filter.py
@@ -11,9 +11,8 @@ def main(args):
     aclConfig = ACLConfig.fromPath(args.acls)
     r = ast.run(aclConfig.rules)
     print(len(r))
-    for i in aclConfig.rules.rules:
-        if i in r:
-            print(i)
+    for i in r:
+        print(i)
 
 
 def run_main():
diff --git a/examples/render/dynamic.py b/examples/render/dynamic.py
index 57fbeef..9ac1864 100644
--- a/examples/render/dynamic.py
+++ b/examples/render/dynamic.py
@@ -6,8 +6,6 @@ from acltk.pfsenseSemantics import pfsenseParserOptions
 
 app = Flask(__name__, template_folder="tpl")
 app.jinja_env.add_extension("jinja2.ext.loopcontrols")
-# the templates are .jinja2 files, flask escapes .html only by default
-app.jinja_env.autoescape = True
 
 app.config["SHELVE_FILENAME"] = "/tmp/test.db"
 
@@ -23,7 +21,7 @@ def add():
             db = shelve.get_shelve()
             db[cfg.name] = cfg
             return redirect(url_for("show", config=cfg.name))
-        except (TypeError, ValueError):
+        except TypeError:
             return redirect(url_for("index"))
 
 
diff --git a/examples/render/static.py b/examples/render/static.py
index 4844ab5..739a754 100755
--- a/examples/render/static.py
+++ b/examples/render/static.py
@@ -31,7 +31,7 @@ def main():
     args = parser.parse_args()
 
     loader = FileSystemLoader("./tpl/")
-    env = Environment(loader=loader, extensions=["jinja2.ext.loopcontrols"], autoescape=True)
+    env = Environment(loader=loader, extensions=["jinja2.ext.loopcontrols"])
     for i in env.list_templates():
         print(i)
     aclconfig = ACLConfig.fromFile(Path(args.acls).open("rb"))
@@ -45,9 +45,9 @@ def main():
     caffilter = ""
     if args.caf:
         print(args.caf)
-        caffilter = Path(args.caf).read_text(encoding="utf-8-sig")
-        caf = cafBlock.fromString(caffilter, filename=args.caf)
+        caf = cafBlock.fromFile(open(args.caf, "rb"), trace=False)
         r = aclconfig.filter(caf)
+        caffilter = open(args.caf).read()
         selection = aclconfig.resolve(r)
 
     if args.sort:
diff --git a/examples/render/tpl/static.jinja2 b/examples/render/tpl/static.jinja2
index 394298a..d670646 100644
--- a/examples/render/tpl/static.jinja2
+++ b/examples/render/tpl/static.jinja2
@@ -288,7 +288,7 @@ thead			{ font-style: italic; }
 	</tr>
 {% endfor %}
 
-{% for route in aclconfig.routes | select('in', obj.routes) | sort(attribute='network') %}
+{% for route in obj.routes | sort(attribute='network') %}
 	<tr>
 		<td></td>
 {% if loop.first %}
@@ -841,7 +841,7 @@ thead			{ font-style: italic; }
 <tr>
 	<td colspan="1">
 	</td>
-	<td colspan="7" class="{{ h.bg }}" >
+	<td colspan="7" class="{{h.bg | safe }}" >
 		{{ h.text }}
 	</td>
 </tr>
-- 
2.43.0


From 0061c9da0db4aad48736d3bb6cfff698433c94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 33/42] fix: the statements after an ip dhcp pool of an IOS
 configuration are not swallowed

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..14ea7db 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 25d8da9..25442bf 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4502,11 +4502,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 7db0a33f0848020670b10f2e6ebaabf508b57318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 34/42] fix: log-input, mobility-type and routing-type of IOS
 IPv6 access lists are parsed

---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 14ea7db..b15677e 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
+	| type:"log"
+	| type:"mobility-type" WS value:int
 	| type:"mobility"
-	| type:"mobility-type" value:int
+	| type:"routing-type" [WS value:int]
 	| type:"routing"
-	| type:"routing-type" [value:int]
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 25442bf..d3b976f 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2986,31 +2986,34 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
+                self._WS_()
                 self._int_()
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
                 self.name_last_node('type')
                 with self._optional():
+                    self._WS_()
                     self._int_()
                     self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From 08b17f7a63ca520f8300a0105733d2fd89364ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 35/42] fix: banners of IOS delimited by a non ascii character
 or with a ^ before the delimiter

---
 lib/acltk/iosSemantics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index cff933c..746a2e7 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -255,14 +256,13 @@ class iosParser(aclParser, _iosParser):
     def _delim_msg_(self):
         if self.delim == "^C":
             # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            self._pattern(r"([^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
-            self._pattern(p)
+            self._pattern(f"[^{re.escape(self.delim)}]*")
 
     @tatsumasu()
     def _delim_stop_(self):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0


From dd06a8991fe2fcb806abe508297e01021cdd001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 36/42] fix: the rules of a pfSense interface are not shown as
 those of the one described by its name

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index adeb88b..87d0295 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -114,7 +114,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
-- 
2.43.0


From 4fbb051233f20c5538a5aaa0b498948fd3750f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 37/42] fix: a pfSense interface described by the name of
 another one does not replace it

---
 lib/acltk/pfsenseSemantics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 87d0295..fde39a2 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -84,6 +84,7 @@ class pfsenseParser(aclParser):
 
     def _parse_interfaces(self, root):
         ast = []
+        taken = {"floating"} | {i.tag for i in root}
         for i in list(root):
             values = {"alias": i.tag}
             for d in list(i):
@@ -104,7 +105,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr") or alias)
+                descr = html.parser.unescape(values.get("descr") or "")
+                # keep interfaces apart if the description names another one
+                if descr and descr not in taken and descr not in self.interfaces:
+                    alias = descr
             else:
                 details.append(
                     tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
-- 
2.43.0


From 3d43a5562b6eb19c84b06c61db3a266b3100d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 38/42] fix: comments of CAF which end with more than one
 asterisk

'/* a **/ id x union /* b */ id y' lost 'id x' without a word.
---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..bbceb5a 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|\*(?![\/]))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..4fe44c0 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|\\*(?![\\/]))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From 0bc75bd9e4fa942ffb4599e9d8dac53e6cb9aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 39/42] fix: interface addresses without a standby address are
 kept

---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 21b95b3..2a5d07e 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2702,11 +2702,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2723,11 +2725,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 39657ebd9070d4a11c400aa08f419b4223550851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 40/42] fix: texts of configurations with CRLF line endings do
 not end in a carriage return

---
 lib/acltk/acl.bnf  |  6 +++---
 lib/acltk/fwsm.bnf |  6 +++---
 lib/acltk/fwsm.py  | 35 +++++++++++++++++++----------------
 lib/acltk/ios.py   | 23 ++++++++++++-----------
 4 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index ed98f88..b2e02a0 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -1,5 +1,5 @@
 NL = ["\r"] "\n";
-TOEOL = ?/[^\n]*/?;
+TOEOL = ?/[^\n]*?(?=\r?$)/?;
 SP = " ";
 WS = /[ \t]+/;
 
@@ -20,7 +20,7 @@ domain_name
 
 
 description
-	= "description" WS description:?/[^\n]+/? NL
+	= "description" WS description:?/[^\n]+?(?=\r?$)/? NL
 	;
 
 
@@ -210,7 +210,7 @@ acl_icmp_node
 	;
 
 remark
-	= (?/[^\n]*/?)
+	= (?/[^\n]*?(?=\r?$)/?)
 	;
 
 object
diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index 3e25691..c5db52b 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -7,8 +7,8 @@ grammar
 	;
 
 version
-	= version:?/ASA Version [^\n]*/? NL
-	| version:?/FWSM Version [^\n]*/? NL
+	= version:?/ASA Version [^\n]*?(?=\r?$)/? NL
+	| version:?/FWSM Version [^\n]*?(?=\r?$)/? NL
 	;
 
 command
@@ -39,7 +39,7 @@ interface_detail
 
 
 name
-	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" description:?/[^\n]+/?] NL
+	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" description:?/[^\n]+?(?=\r?$)/?] NL
 	;
 
 access_list_rule_extended
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 2a5d07e..ae70df8 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -84,7 +84,7 @@ class fwsmParser(Parser):
 
     @tatsumasu()
     def _TOEOL_(self):
-        self._pattern('[^\\n]*')
+        self._pattern('[^\\n]*?(?=\\r?$)')
 
     @tatsumasu()
     def _SP_(self):
@@ -131,7 +131,7 @@ class fwsmParser(Parser):
     def _description_(self):
         self._token('description')
         self._WS_()
-        self._pattern('[^\\n]+')
+        self._pattern('[^\\n]+?(?=\\r?$)')
         self.name_last_node('description')
         self._NL_()
         self._define(['description'], [])
@@ -832,7 +832,7 @@ class fwsmParser(Parser):
     @tatsumasu()
     def _remark_(self):
         with self._group():
-            self._pattern('[^\\n]*')
+            self._pattern('[^\\n]*?(?=\\r?$)')
 
     @tatsumasu()
     def _object_(self):
@@ -864,7 +864,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -886,7 +886,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1440,7 +1440,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1467,7 +1467,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1492,7 +1492,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1517,7 +1517,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1542,7 +1542,7 @@ class fwsmParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -2581,18 +2581,19 @@ class fwsmParser(Parser):
     def _version_(self):
         with self._choice():
             with self._option():
-                self._pattern('ASA Version [^\\n]*')
+                self._pattern('ASA Version [^\\n]*?(?=\\r?$)')
                 self.name_last_node('version')
                 self._NL_()
                 self._define(['version'], [])
             with self._option():
-                self._pattern('FWSM Version [^\\n]*')
+                self._pattern('FWSM Version [^\\n]*?(?=\\r?$)')
                 self.name_last_node('version')
                 self._NL_()
                 self._define(['version'], [])
             self._error(
                 'expecting one of: '
-                'ASA Version [^\\n]* FWSM Version [^\\n]*'
+                'ASA Version [^\\n]*?(?=\\r?$) FWSM Version'
+                '[^\\n]*?(?=\\r?$)'
             )
 
     @tatsumasu()
@@ -2666,7 +2667,8 @@ class fwsmParser(Parser):
                 '<access_list> <access_list_remark>'
                 '<domain_name> <ignored> <object_group>'
                 '<time_range> <unmatched> <version> ASA'
-                'Version [^\\n]* FWSM Version [^\\n]*'
+                'Version [^\\n]*?(?=\\r?$) FWSM Version'
+                '[^\\n]*?(?=\\r?$)'
             )
 
     @tatsumasu()
@@ -2753,7 +2755,8 @@ class fwsmParser(Parser):
             self._error(
                 'expecting one of: '
                 "'\\n' '\\r' 'description' 'ip' 'ipv6'"
-                "'nameif' 'no' <NL> <TOEOL> [^\\n]*"
+                "'nameif' 'no' <NL> <TOEOL>"
+                '[^\\n]*?(?=\\r?$)'
             )
 
     @tatsumasu()
@@ -2777,7 +2780,7 @@ class fwsmParser(Parser):
         with self._optional():
             self._WS_()
             self._token('description')
-            self._pattern('[^\\n]+')
+            self._pattern('[^\\n]+?(?=\\r?$)')
             self.name_last_node('description')
             self._define(['description'], [])
         self._NL_()
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index d3b976f..d958146 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -84,7 +84,7 @@ class iosParser(Parser):
 
     @tatsumasu()
     def _TOEOL_(self):
-        self._pattern('[^\\n]*')
+        self._pattern('[^\\n]*?(?=\\r?$)')
 
     @tatsumasu()
     def _SP_(self):
@@ -131,7 +131,7 @@ class iosParser(Parser):
     def _description_(self):
         self._token('description')
         self._WS_()
-        self._pattern('[^\\n]+')
+        self._pattern('[^\\n]+?(?=\\r?$)')
         self.name_last_node('description')
         self._NL_()
         self._define(['description'], [])
@@ -832,7 +832,7 @@ class iosParser(Parser):
     @tatsumasu()
     def _remark_(self):
         with self._group():
-            self._pattern('[^\\n]*')
+            self._pattern('[^\\n]*?(?=\\r?$)')
 
     @tatsumasu()
     def _object_(self):
@@ -864,7 +864,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -886,7 +886,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1440,7 +1440,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1467,7 +1467,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1492,7 +1492,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1517,7 +1517,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -1542,7 +1542,7 @@ class iosParser(Parser):
                     self._SP_()
                     self._token('description')
                     self._WS_()
-                    self._pattern('[^\\n]+')
+                    self._pattern('[^\\n]+?(?=\\r?$)')
                     self.name_last_node('description')
                     self._NL_()
                     self._define(['description'], [])
@@ -2796,7 +2796,8 @@ class iosParser(Parser):
             self._error(
                 'expecting one of: '
                 "'\\n' '\\r' 'description' 'ip' 'ipv6'"
-                "'switchport' <NL> <TOEOL> [^\\n]*"
+                "'switchport' <NL> <TOEOL>"
+                '[^\\n]*?(?=\\r?$)'
             )
 
     @tatsumasu()
-- 
2.43.0


From 3ff323a520402e9f08b6a245637314e2e8e6118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 41/42] fix: the rules of an ASA access list resolve to the
 interfaces it is bound to

---
 lib/acltk/aclObjects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 801921e..b0908e2 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1238,7 +1238,11 @@ class ACLConfig:
                 for j in self.interfaces.values():
                     if j.nameif == i.iface:
                         i.iface = j
+                        if i.direction in j.access_groups:
+                            replaced = j.access_groups[i.direction]
+                            self.access_groups[replaced.name].remove(replaced)
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From 36a9860f1a2dfa04481a8fa5ec2b69828cba1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:27 +0000
Subject: [PATCH 42/42] fix: the description of an ASA name does not begin with
 the blank before it

---
 lib/acltk/fwsm.bnf | 2 +-
 lib/acltk/fwsm.py  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index c5db52b..c9d3c27 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -39,7 +39,7 @@ interface_detail
 
 
 name
-	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" description:?/[^\n]+?(?=\r?$)/?] NL
+	= "name" WS address:(ip4|ip6) WS hostname:identifier [WS "description" WS description:?/[^\n]+?(?=\r?$)/?] NL
 	;
 
 access_list_rule_extended
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index ae70df8..606f290 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2780,6 +2780,7 @@ class fwsmParser(Parser):
         with self._optional():
             self._WS_()
             self._token('description')
+            self._WS_()
             self._pattern('[^\\n]+?(?=\\r?$)')
             self.name_last_node('description')
             self._define(['description'], [])
-- 
2.43.0

