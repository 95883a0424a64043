From fccef6fed4c24dd6dd53f0a0901812e3b1ca511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 01/67] fix: deleting a field in the pure-Python build removes
 the value and notifies

---
 vrml/field.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..70f71a0 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -166,20 +166,25 @@ else:
             return defaultobj
 
         def __delete__(self, client):
-            """Delete our value from client's dictionary"""
-            try:
-                client.__dict__[self.name]
-            except KeyError:
-                raise AttributeError(self.name)
+            """Delete our value from client's dictionary (notifies)"""
+            self._del(client, True)
 
         def fdel(self, client, notify=True):
             """Delete with notify"""
-            self.__delete__(client)
+            return self._del(client, notify)
+
+        def _del(self, client, notify):
+            """Delete the value, with notifications"""
+            try:
+                value = client.__dict__.pop(self.name)
+            except KeyError:
+                raise AttributeError(self.name)
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From 8a3ffc9b2406f46406332e0289276ebb2168c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 02/67] fix: deleting an OList item by index removes it, and
 events follow the change

---
 vrml/olist.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..8a542ec 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -79,16 +79,14 @@ class OList( list ):
         return item
     def __delitem__( self, index ):
         """Delete a single item"""
+        current = self[index]
+        super( OList,self ).__delitem__( index )
         if isinstance( index, slice ):
-            current = self.__getitem__( index )
             for value in current:
                 self._sendRemoved( value )
-            super( OList,self ).__delitem__( index )
-            return current 
         else:
-            value = self[index]
-            self._sendRemoved( value )
-        return value
+            self._sendRemoved( current )
+        return current
     def __delslice__( self, i,j):
         return self.__delitem__( slice(i,j))
     def __setitem__( self, index, value ):
@@ -111,10 +109,9 @@ class OList( list ):
             return values 
         else:
             current = self[index]
-            if current is not value:
-                self._sendRemoved( current )
             super( OList,self ).__setitem__( index, value )
             if current is not value:
+                self._sendRemoved( current )
                 self._sendAdded( value )
             return value 
     def __setslice__( self, i,j, iterable ):
-- 
2.43.0


From f49a02b92c4559b60ac31de3082649d6eb75ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 03/67] fix: OList in-place add, repeat and clear keep the list
 and send events

---
 vrml/olist.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index 8a542ec..7067318 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -116,8 +116,18 @@ class OList( list ):
             return value 
     def __setslice__( self, i,j, iterable ):
         return self.__setitem__( slice(i,j), iterable)
+    def extend( self, iterable ):
+        """Append each value in iterable, sending messages"""
+        return self.__setitem__( slice(len(self),len(self)), iterable )
     def __iadd__( self, iterable ):
         """Do an in-place add"""
-        return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
+        self.extend( iterable )
+        return self
+    def __imul__( self, count ):
+        """Do an in-place repetition"""
+        self[:] = list( self ) * count
+        return self
+    def clear( self ):
+        """Remove all items, sending messages"""
+        del self[:]
     
-- 
2.43.0


From 5b9536e448e54cbfebdc0d04ff32b97af74768bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 04/67] fix: NULL compares equal to NULL only and can be hashed

---
 vrml/node.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..5ae47a7 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -282,11 +282,15 @@ class NullNode(Node):
 
     def __eq__(self, other):
         """Compare the NULL node to other objects"""
-        try:
-            if protoName(self) == protoName(other):
-                return 0
-        except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
+        return isinstance(other, NullNode)
+
+    def __hash__(self):
+        """All NULL nodes are equal, so they share a hash"""
+        return hash(NullNode)
+
+    def copy(self, copier=None):
+        """There is a single NULL node, so it is its own copy"""
+        return self
 
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
-- 
2.43.0


From 6842b2570694a94df92467907db5c84c8494b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 05/67] fix: getField returns the field object for a field
 stored under another name

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 5b91e5c74135b3d7daa7f2cbcce1b9220108ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 06/67] fix: arrays that differ in any element or in shape do
 not compare as the same

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..27e2c78 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return first.shape == second.shape and bool(all(first == second))
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From 2c3cff1902238d905cc5e47d2a7d9529865f15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 07/67] fix: each lineariser keeps its own indentation instead
 of the shared defaults

---
 vrml/vrml97/linearise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..3b1f9af 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -56,9 +56,9 @@ class Lineariser:
     def __init__(self, linvalues=None, alreadydone=None, *args, **namedargs):
         if linvalues is None:
             linvalues = defaults
-        if namedargs:
-            linvalues = linvalues.copy()
-            linvalues.update(namedargs)
+        # always a copy, as the current indentation is stored here
+        linvalues = linvalues.copy()
+        linvalues.update(namedargs)
         self.linvalues = linvalues
         if alreadydone is None:
             self.alreadydone = {}
-- 
2.43.0


From ee843d4405aed358427b411c5c58ee135a06b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 08/67] fix: invalidating a path invalidates its descendants at
 every depth

---
 vrml/vrml97/nodepath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..e3c16bc 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -126,8 +126,8 @@ class _NodePath( object ):
     def invalidate( self ):
         """Set this path to be invalid (and all children paths)"""
         self.broken = True 
-        for desc in self.iterdescendents( ):
-            desc.broken = True 
+        for child in self.iterchildren():
+            child.invalidate()
 
 class NodePath( _NodePath, nodepath.NodePath ):
     """Strong-reference version of VRML97 NodePath"""
-- 
2.43.0


From 057cdfdfaec12640a261eb4e9786aba8c4c0f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 09/67] fix: scale-only path matrices follow changes to the
 centre

---
 vrml/vrml97/nodepath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index e3c16bc..acc8b9a 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -70,12 +70,13 @@ class _NodePath( object ):
                 # TODO: assumes child is a Transform!
                 if translate:
                     holder.depend( item, 'translation' )
+                if scale or rotate:
+                    holder.depend( item, 'center' )
                 if scale:
                     holder.depend( item, 'scale' )
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
-                    holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
             *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
-- 
2.43.0


From 20334da83f784d91ed67d123497ad1b7a722d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 10/67] fix: a failed matrix computation does not leave a cache
 entry that never updates

---
 vrml/vrml97/basenodes.py | 17 +++++++++++------
 vrml/vrml97/nodepath.py  | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index ce401cb..98462f0 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -604,12 +604,17 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
             if rotate:
                 fields.append( 'rotation' )
             d = self.__dict__
-            forward,inverse = transformmatrix.localMatrices(
-                **dict([(k,d.get(k)) for k in fields] )
-            )
-            if doConnect:
-                for k in fields:
-                    holder.depend( self, k )
+            try:
+                forward,inverse = transformmatrix.localMatrices(
+                    **dict([(k,d.get(k)) for k in fields] )
+                )
+                if doConnect:
+                    for k in fields:
+                        holder.depend( self, k )
+            except BaseException:
+                # may not be watching all of our fields, so discard it
+                holder()
+                raise
             holder.data = (forward,inverse)
         return holder
 
diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index acc8b9a..87bc409 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -78,13 +78,18 @@ class _NodePath( object ):
                 if rotate:
                     holder.depend( item, 'rotation' )
             return child_holder.data[inverse]
-        matrix = transformmatrix.compressMatrices( 
-            *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
-        )
-        if matrix is None:
-            matrix = identity(4, dtype='f')
+        try:
+            matrix = transformmatrix.compressMatrices( 
+                *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
+            )
+            if matrix is None:
+                matrix = identity(4, dtype='f')
+        except BaseException:
+            # may only be watching some of our dependencies, so discard it
+            holder()
+            raise
         holder.data = matrix
-        return holder.data
+        return matrix
     def transformChildren( self, reverse=0 ):
         """Yield all transforming children"""
         t = nodetypes.Transforming
-- 
2.43.0


From f0311dfa8ac5fc28416af61c4813986a4b1c0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 11/67] fix: a child-list change notifies its own field only,
 with the list as the value

---
 vrml/node.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 5ae47a7..bd8ba40 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -444,16 +444,17 @@ assert PrototypedNode.scenegraph.name == " scenegraph", PrototypedNode.scenegrap
 assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 
 
-def _changeSender(nodeRef, field):
+def _changeSender(nodeRef, listField):
     """Utility function to send node-change messages on olist updates"""
 
-    def onOListChange(sender, signal, value):
+    def onOListChange(sender, signal, value, field=None):
         client = nodeRef()
-        if client:
+        # other MFNode fields of the node send their changes as the node too
+        if client and field is listField:
             dispatcher.send(
-                ('set', field),
+                ('set', listField),
                 client,
-                value=sender,
+                value=listField.fget(client),
                 subsignal=signal,
                 subvalue=value,
             )
-- 
2.43.0


From fcc8977b527664491f485812f0660dd7b8ccc64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 12/67] fix: changes to a child list are announced however the
 list came to be the field's value

---
 vrml/node.py | 72 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index bd8ba40..abaac32 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -487,26 +487,10 @@ class _MFNode(object):
             previous[:] = self.coerce(value)
             value = previous
         else:
-            value = super(_MFNode, self).fset(client, value, notify)
-            # register for updates to the list...
-            # we just send "changed" events for the field whenever
-            # there's an update to the list... a bit wasteful, as
-            # our clients might want to know about just the changed
-            # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+            value = super(_MFNode, self).fset(client, value, 0)
+            self._watchList(client, value)
+        if notify:
+            dispatcher.send(('set', self), client, value=value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -516,6 +500,32 @@ class _MFNode(object):
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
         return value
 
+    def _watchList(self, client, value):
+        """Register for updates to the client's list
+
+        we just send "changed" events for the field whenever
+        there's an update to the list... a bit wasteful, as
+        our clients might want to know about just the changed
+        values, but for now...
+        """
+        value.setSender(client, field=self)
+        value.changeSender = _changeSender(weakref.ref(client), self)
+        for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
+            dispatcher.connect(
+                value.changeSender,
+                sender=client,
+                signal=signal,
+                weak=False,  # don't weakref receiver so it will hang around...
+            )
+
+    def _unwatchList(self, client, value):
+        """The list is no longer the client's, so ignore its updates"""
+        value.setSender(None)
+        for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
+            dispatcher.disconnect(
+                value.changeSender, sender=client, signal=signal, weak=False
+            )
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -550,6 +560,28 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Set the client's value for this property (notifies)"""
+        self.fset(client, value)
+
+    def __delete__(self, client):
+        """Delete the client's value for this property (notifies)"""
+        self.fdel(client)
+
+    def fdel(self, client, notify=1):
+        """Delete with option to notify"""
+        value = client.__dict__.get(self.name)
+        if value is not None:
+            self._unwatchList(client, value)
+        return super(MFNode, self).fdel(client, notify)
+
+    def getDefault(self, client=None):
+        """Get the default value, storing it if there is a client"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self._watchList(client, value)
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From ed72825fe014e8c8be5f904e2a165cbbc2744808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 13/67] fix: ShaderGeometry's default appearance is NULL

---
 vrml/vrml97/shaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/shaders.py b/vrml/vrml97/shaders.py
index 225daa7..50ab4bb 100644
--- a/vrml/vrml97/shaders.py
+++ b/vrml/vrml97/shaders.py
@@ -23,7 +23,7 @@ class ShaderGeometry( nodetypes.Children, nodetypes.Rendering, node.Node ):
     attributes = field.newField( 'attributes','MFNode',1,list )
     slices = field.newField( 'slices', 'MFNode',1,list )
     uniforms = field.newField( 'uniforms','MFNode',1,list )
-    appearance = field.newField( 'appearance', 'SFNode',1,list )
+    appearance = field.newField( 'appearance', 'SFNode',1,node.NULL )
 
 class ShaderSlice( node.Node ):
     """Segment of a shader geometry element to render"""
-- 
2.43.0


From f44b654e59229046bff528295d105c909fc2685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 14/67] fix: attribute access to node and weak node fields
 behaves as fget and fset do

---
 vrml/field.py | 10 ++++++++++
 vrml/node.py  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/vrml/field.py b/vrml/field.py
index 70f71a0..ddcdee4 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -345,6 +345,16 @@ class Field(BaseField):
 class WeakField(object):
     """A Mix-in for fields which stores weak-references to values"""
 
+    def __get__(self, client, cls=None):
+        """Get the client's value for this property (or self for cls)"""
+        if client is None:
+            return self
+        return self.fget(client)
+
+    def __set__(self, client, value):
+        """Set the client's value for this property (notifies)"""
+        self.fset(client, value)
+
     def fset(self, client, value, notify=1):
         """Set the client's value for this property
 
diff --git a/vrml/node.py b/vrml/node.py
index abaac32..a63d469 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -381,6 +381,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Set the client's value for this property (notifies)"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
-- 
2.43.0


From 26e2354327b338e6f4ed73305e4fa02f4986950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 15/67] fix: joining a scene registers no empty DEF name and
 leaves NULL alone

---
 vrml/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index a63d469..ddd6137 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -423,17 +423,20 @@ class RootScenegraphNode(WeakSFNode):
                 except ValueError:
                     pass
                 else:
-                    self.fset(child, value, notify=False)
+                    if child:
+                        self.fset(child, value, notify=False)
             elif isinstance(field, MFNode):
                 try:
                     for child in field.__get__(client):
-                        self.fset(child, value, notify=False)
+                        if child:
+                            self.fset(child, value, notify=False)
                 except AttributeError:
                     pass
             elif field.name == ' DEF':
                 try:
                     DEF = field.__get__(client)
-                    value.regDefName(DEF, client)
+                    if DEF:
+                        value.regDefName(DEF, client)
                 except AttributeError:
                     pass
         return result
-- 
2.43.0


From 4daa42d4ee1294be0e166eae3f691264f51c0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 16/67] fix: routes through events keep their cascade and
 rejected values are not passed on

---
 vrml/field.py | 11 ++++++++---
 vrml/route.py |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index ddcdee4..c0320e8 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -406,8 +406,12 @@ class Event(object):
         self.name = name
         self.direction = direction
 
-    def __set__(self, client, value, notify=1):
-        """Set an event value"""
+    def __set__(self, client, value, notify=1, event=None):
+        """Set an event value
+
+        event -- the event-object of the cascade which is delivering
+            the value, if any, passed on to those we notify
+        """
         method = getattr(client, 'on_%s' % (self.name,), None)
         if method is not None:
             robustapply.robustApply(
@@ -419,7 +423,8 @@ class Event(object):
         client.__dict__[self.name] = value
         # and then send event letting world know...
         if notify:
-            dispatcher.send(('set', self), client, value=value)
+            dispatcher.send(('set', self), client, value=value, event=event)
+        return value
 
     def __get__(self, client=None, cls=None):
         """Get an event's last value"""
diff --git a/vrml/route.py b/vrml/route.py
index 1297887..3508fac 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -93,12 +93,15 @@ class ROUTE( node.Node ):
                 try:
                     value = destinationField.fset( destination, value, notify = 0 )
                 except (ValueError, TypeError):
+                    # not accepted, so there is nothing to pass on
                     traceback.print_exc()
+                    return
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    value = destinationField.__set__( destination, value, event=event )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
             dispatcher.send(
                 signal = ('route',destinationField),
                 sender = destination,
-- 
2.43.0


From 045e5d81ab19dbd94f4b4be96f12db3581536771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 17/67] fix: watching a field through addRoute leaves the
 scene's routes saveable

---
 vrml/vrml97/scenegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..e97398c 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -150,6 +150,8 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 field = protofunctions.getField( source, sourceField )
                 field.watch( source, target, ('set',field) )
                 field.watch( source, target, ('del',field) )
+                # not a ROUTE node, so not one of our routes
+                return route
         self.routes.append( route )
         return route
 ##	def addIsMap( self, name, node, field ):
-- 
2.43.0


From c92dbc69df668651a028db638b1fcf77aaf1546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 18/67] fix: MFVec2d fields keep double precision

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..f172935 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1050,7 +1050,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From 992929de9f5e91930f8641972d9b026a16cca208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 19/67] fix: WeakList operations work on Python 3 and skip
 collected items

---
 vrml/weaklist.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..533020b 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -1,5 +1,6 @@
 """list sub-class which holds weak references to objects"""
 
+import functools
 import weakref
 import types
 
@@ -50,23 +51,24 @@ class WeakList( list ):
     def get( self ):
         """Get all items as a list of strong references
         """
-        return [
+        items = [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__iter__()
         ]
+        return [item for item in items if item is not None]
     def __iter__( self ):
-        """Iterate over the list, yielding strong references"""
-        index = 0
-        while index < len(self):
-            yield self[index]
-            index += 1
+        """Iterate over the (current) items, yielding strong references"""
+        return iter( self.get() )
+    def __reversed__( self ):
+        """Iterate over the (current) items in reverse order"""
+        return reversed( self.get() )
 
     def __setitem__( self, index, item ):
         """Set the item at the given index"""
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,11 +86,21 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list with another sequence"""
+        self.extend( sequence )
+        return self
+
+    def __add__( self, sequence ):
+        """Return a list of strong references to our items and sequence's"""
+        return self.get() + list( sequence )
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakList,self).__getitem__( index))
+        item = super (WeakList,self).__getitem__( index)
+        if isinstance( index, slice ):
+            return [self.unwrap(obj) for obj in item]
+        return self.unwrap(item)
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
         return self.unwrap( super(WeakList,self).pop(index))
@@ -116,7 +128,7 @@ class WeakList( list ):
         """
         t = self.get()
         if function is not None:
-            result = t.sort( function )
+            result = t.sort( key=functools.cmp_to_key( function ))
         else:
             result = t.sort( )
         self[:] = t
-- 
2.43.0


From a27e6f68fbbb3f2e416a55f0d3ca3a4b180497ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 20/67] fix: WeakTuple and the weak-key dictionary can be built
 and used on Python 3

---
 vrml/weakkeydictfix.py | 13 +------------
 vrml/weaktuple.py      | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/vrml/weakkeydictfix.py b/vrml/weakkeydictfix.py
index a7341ae..27c2188 100644
--- a/vrml/weakkeydictfix.py
+++ b/vrml/weakkeydictfix.py
@@ -16,18 +16,7 @@ class WeakKeyDictionary( weakref.WeakKeyDictionary ):
         dict -- previously-existing weak key records or
             None to create a new dictionary
         """
-        self.data = {}
-        def remove(k, selfref=ref(self)):
-            self = selfref()
-            if self is not None and self.data:
-                try:
-                    v = self.data.get( k )
-                    del self.data[k]
-                except (KeyError,RuntimeError):
-                    pass
-            # now v goes out of scope and is deleted...
-        self._remove = remove
-        if dict is not None: self.update(dict)
+        weakref.WeakKeyDictionary.__init__( self, dict )
     def __delitem__(self, key):
         """Overridden delitem to avoid scanning"""
         try:
diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 7ca6708..596ad0a 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -25,13 +25,15 @@ class WeakTuple( tuple ):
     missing items as does the WeakList.  This can
     occur for basically _any_ use of the tuple.
     """
-    def __init__( self, sequence=() ):
+    def __new__( cls, sequence=() ):
         """Initialize the tuple
 
         The WeakTuple will store weak references to objects
         within the sequence.
         """
-        super( WeakTuple, self).__init__( [self.wrap(obj) for obj in sequence])
+        return super( WeakTuple, cls ).__new__(
+            cls, [cls.wrap(obj) for obj in sequence]
+        )
 
     def valid( self ):
         """Explicit validity check for the tuple
@@ -43,10 +45,11 @@ class WeakTuple( tuple ):
         try:
             list( self )
             return 1
-        except weakref.ReferenceError:
+        except ReferenceError:
             return 0
         
-    def wrap( self, item ):
+    @staticmethod
+    def wrap( item ):
         """Wrap an individual item in a weak-reference
 
         If the item is already a weak reference, we store
@@ -66,7 +69,7 @@ class WeakTuple( tuple ):
         """
         ref = item()
         if ref is None:
-            raise weakref.ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
+            raise ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
         return ref
 
     def __iter__( self ):
@@ -78,13 +81,10 @@ class WeakTuple( tuple ):
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakTuple,self).__getitem__( index ))
-    def __getslice__( self, start, stop ):
-        """Get the items in the range start to stop"""
-        return [
-            self.unwrap(obj) 
-            for obj in super (WeakTuple,self).__getslice__( start, stop)
-        ]
+        item = super (WeakTuple,self).__getitem__( index )
+        if isinstance( index, slice ):
+            return [self.unwrap(obj) for obj in item]
+        return self.unwrap( item )
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the tuple"""
         for node in self:
-- 
2.43.0


From 9a571baeecc6c3c69b494a952c08fa197472ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 21/67] fix: copying a node copies the nodes in its fields,
 keeping sharing and cycles

---
 vrml/node.py              | 16 +++++++++++-----
 vrml/vrml97/scenegraph.py | 10 ++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index ddd6137..487928e 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,13 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
+        # registered before copying our values, which may refer back to us
         copier.use(self, newNode)
+        for field in getFields(self):
+            # the copy isn't in our scene until it is added to it
+            if field.fhas(self) and not isinstance(field, RootScenegraphNode):
+                field.fset(newNode, field.copy(self, copier), notify=0)
         return newNode
 
     def toString(self, **namedargs):
@@ -385,6 +385,12 @@ class SFNode(_SFNode, field.Field):
         """Set the client's value for this property (notifies)"""
         self.fset(client, value)
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier"""
+        if isinstance(value, Node):
+            return value.copy(copier)
+        return value
+
 
 SFNode.requiredTypes = (Node,)
 
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index e97398c..58592b0 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -176,8 +176,10 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
-        node.protoTypes = newPrototypes
-        node.defNames = newDefs
-        return node
+        newGraph = super( SceneGraph, self).copy( copier )
+        newGraph.root = self.root
+        newGraph.protoTypes = newPrototypes
+        newGraph.defNames = newDefs
+        node.Node.rootSceneGraph.fset( newGraph, newGraph, notify=0 )
+        return newGraph
     
-- 
2.43.0


From ccae48b6415ff7e535098d4ada0f996d68ad5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 22/67] fix: each PROTO instance has its own implementation,
 with its defaults passed in

---
 vrml/node.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 487928e..bd79739 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -198,6 +198,19 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mappings name the template's nodes, bind to our copies
+                destination = destination.copy(copier)
+                if hasattr(sourceField, 'getDefault'):
+                    default = sourceField.getDefault()
+                    try:
+                        getField(destination, destinationField).fset(
+                            destination,
+                            default,
+                            # so that it reaches the nodes within destination
+                            notify=isinstance(destination, PrototypedNode),
+                        )
+                    except AttributeError:
+                        pass
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -205,16 +218,6 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
         PrototypedNode.scenegraph.fset(self, sg)
 
     def renderedChildren(self, types=None):
-- 
2.43.0


From be310e3d565a58efbb6771cd3f141d02e51329a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 23/67] fix: a prototype's URL is not one of its fields, so
 saved prototypes can be read again

---
 vrml/field.py            |  7 ++++++-
 vrml/vrml97/linearise.py | 21 ++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index c0320e8..6e55b7b 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -288,9 +288,12 @@ class Field(BaseField):
         """Convert the given value to a VRML97 representation"""
         return ""
 
-    def fieldVrmlstr(self, lineariser):
+    def fieldVrmlstr(self, lineariser, requireDefault=1):
         """Write the field's definition to the lineariser
 
+        requireDefault -- whether the definition includes the default
+            value (those of an EXTERNPROTO do not)
+
         Basically this gives you a VRML97 fragment
         which can be used for creating a PROTO which
         will have the equivalent of this field available.
@@ -307,6 +310,8 @@ class Field(BaseField):
                 self.name,
             )
         )
+        if not requireDefault:
+            return
         result = self.vrmlstr(
             # coerce is necessary because the
             # default values are often not in
diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 3b1f9af..c7e8aab 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -203,11 +203,10 @@ class Lineariser:
         buffer = self.buffer = StringIO()  # local buffer only for this particular proto
 
         # write header (PROTO x [, EXTERNPROTO x [ )
-        # TODO: the externalURL descriptor no longer works, likely because the proto node
-        # is now a type, so it is trying to access an instance variable
         externalURL = clientNode.externalURL
         if hasattr(externalURL, '__get__'):
-            externalURL = clientNode.externalURL.__get__(clientNode)
+            # the field itself, so no URL has been set for this prototype
+            externalURL = None
         if externalURL:
             buffer.write('EXTERNPROTO %s [' % (clientName,))
         else:
@@ -215,7 +214,7 @@ class Lineariser:
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=1)  # clientNode.__gi__ == "PROTO")
+        self._fieldDict(clientNode, requireDefault=not externalURL)
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -331,7 +330,13 @@ class Lineariser:
         self._fieldDict(
             getPrototype(clientNode),
             requireDefault=1,
-            skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            skipFields=(
+                ' DEF',
+                'externalURL',
+                'url',
+                'directOutput',
+                'mustEvaluate',
+            ),
         )
         self._dedent()
         self._attrDict(clientNode)
@@ -406,7 +411,9 @@ class Lineariser:
             field.eventVrmlstr(self)
             # XXX do IS-mapping here!
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+    def _fieldDict(
+        self, clientNode, requireDefault=1, skipFields=('DEF', 'externalURL')
+    ):
         buffer = self.buffer
         fields = [
             field
@@ -418,7 +425,7 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            field.fieldVrmlstr(self, requireDefault)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From 05eb5a9c12b0c4c3760cde59e1190049a4ec1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 24/67] fix: edited Script fields and IS mappings of events are
 saved

---
 vrml/vrml97/linearise.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index c7e8aab..6e0652c 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -361,29 +361,16 @@ class Lineariser:
                         isMaps[field] = fieldName
         else:
             isMaps = {}
-        if protoName(object) == "Script":
-            items = [
-                field
-                for field in getFields(object)
-                if field.name in ('url', 'mustEvaluate', 'directOutput')
-            ]
-        else:
-            items = [
-                field
-                for field in getFields(object)
-                if field.name and field.name[0] != ' '
-            ]
+        items = [
+            field for field in getFields(object) if field.name and field.name[0] != ' '
+        ]
         items.sort()
         for field in items:
             # following slows us down, but prevents the chaff from showing up...
             val = field.fget(object)
             default = field.getDefault()
             if field.name in isMaps:
-                buffer.write(
-                    '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
-                    % linvalues
-                    % (field.name, isMaps.get(field.name))
-                )
+                continue
             elif (
                 default is not None and not arrays.safeCompare(default, val)
             ) or default is None:
@@ -393,6 +380,13 @@ class Lineariser:
                     % (field.name,)
                 )
                 self._sffield(val, field)
+        # both fields and events may be mapped
+        for name in sorted(isMaps):
+            buffer.write(
+                '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
+                % linvalues
+                % (name, isMaps[name])
+            )
 
     def _eventDict(self, clientNode):
         '''
-- 
2.43.0


From e7b6c3a86bf9322fbe987d24c53303e79b878076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 25/67] fix: lists of strings are saved as strings, not as
 nodes

---
 vrml/vrml97/linearise.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 6e0652c..2cd1d40 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -470,29 +470,21 @@ class Lineariser:
         Nodes, ProtoTypes and ExternProtos (well, not according to the
         parsers, but someone might attempt it).
         '''
-        try:
-            if field is node.RootScenegraphNode:
-                return
-            pName = protoName(anyobj)
-            handler = self.typecache.get(pName)
-            if handler:
-                return handler(anyobj)
-            if isinstance(anyobj, list):
-                return self._mfnode(anyobj)
-            return self._Node(anyobj)
-        except AttributeError:
-            if hasattr(field, 'vrmlstr'):
-                result = getattr(field, 'vrmlstr')(anyobj, self)
-                if result is not None:
-                    self.buffer.write(result)
-            elif hasattr(self, field.typeName()):
-                result = getattr(self, field.typeName())(anyobj)
-                if result is not None:
-                    self.buffer.write(result)
-            else:
-                raise TypeError(
-                    '''Unknown fieldType %s, cannot convert to string''' % field
-                )
+        if field is node.RootScenegraphNode:
+            return
+        # by the type of the field, as other values than nodes may be lists
+        if hasattr(field, 'vrmlstr'):
+            result = getattr(field, 'vrmlstr')(anyobj, self)
+            if result is not None:
+                self.buffer.write(result)
+        elif hasattr(self, field.typeName()):
+            result = getattr(self, field.typeName())(anyobj)
+            if result is not None:
+                self.buffer.write(result)
+        else:
+            raise TypeError(
+                '''Unknown fieldType %s, cannot convert to string''' % field
+            )
 
     ### Utility functions...
     def _dedent(self):
-- 
2.43.0


From 096801c4e8f34de7a8c67471841ea8c8d030f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 26/67] fix: a saved prototype refers only to nodes defined
 within it

---
 vrml/vrml97/linearise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 2cd1d40..8bf5adc 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -201,6 +201,9 @@ class Lineariser:
         self._indent(0)
         oldbuffer = self.buffer
         buffer = self.buffer = StringIO()  # local buffer only for this particular proto
+        # the extents of nodes already done are only valid for their own buffer
+        oldalreadydone = self.alreadydone
+        self.alreadydone = {}
 
         # write header (PROTO x [, EXTERNPROTO x [ )
         externalURL = clientNode.externalURL
@@ -251,6 +254,7 @@ class Lineariser:
         buffer.close()
         # return to the original buffer
         self.buffer = oldbuffer
+        self.alreadydone = oldalreadydone
         self._indent(oldindent)
         # note that startind is irrelevant for prototypes,
         # as they cannot be repeated, only multiply referenced.
-- 
2.43.0


From 922b1a1df88b83b869477956f3180557a610563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 27/67] fix: fields at their default are recognised when saving

---
 vrml/vrml97/linearise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 8bf5adc..a2481c6 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -373,6 +373,9 @@ class Lineariser:
             # following slows us down, but prevents the chaff from showing up...
             val = field.fget(object)
             default = field.getDefault()
+            if default is not None:
+                # in the canonical representation, as the value is
+                default = field.coerce(default)
             if field.name in isMaps:
                 continue
             elif (
-- 
2.43.0


From 7f5770dac10a7a5b24dfbb18394fbb2f27281b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 28/67] fix: a prototype without an implementation can be saved

---
 vrml/vrml97/linearise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index a2481c6..b103f65 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -232,7 +232,7 @@ class Lineariser:
             # references to prototypes not already linearised will cause a recursive
             # call to proto that will write those into the protobuffer before returning
             sg = getSceneGraph(clientNode)
-            if sg is not None:
+            if sg:
                 self._sceneGraph(sg)
             if 'EndComments' in linvalues and linvalues['EndComments'] * 60 < (
                 (buffer.tell())
-- 
2.43.0


From 6de9fe0a92d8e974feb1fff2bd11e76f2e4e5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 29/67] fix: arrays are saved whole and read in their own
 precision

---
 vrml/fieldtypes.py            | 3 ++-
 vrml/vrml97/parseprocessor.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index f172935..7fb3e6d 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -636,7 +636,8 @@ class _SFArray(object):
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
-        return str(value)
+        # str( array ) would drop most of a large array's elements and digits
+        return str(value.tolist())
 
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..e92dbf3 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -393,7 +393,7 @@ class ParseProcessor(DispatchProcessor):
             else:
                 result.append(float(buffer[start:stop]))
         if final:
-            result = array(result, 'f')
+            result = array(result, 'd')
         return result
 
     def MFInt32(self, tuples, buffer):
-- 
2.43.0


From 6e7d493d15baf13f3067444a6b28f4b061e6118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 30/67] fix: clearing a weak node field which has no value does
 nothing

---
 vrml/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/field.py b/vrml/field.py
index 6e55b7b..c559c7a 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -368,7 +368,7 @@ class WeakField(object):
         if isinstance(value, weakref.ReferenceType):
             value = value()
         if not value:
-            if not isinstance(client, type):
+            if not isinstance(client, type) and self.fhas(client):
                 self.fdel(client, notify=notify)
             return None
         value = weakref.ref(value)
-- 
2.43.0


From 0af2352adc0de254a52b6c76f59047abbedd5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 31/67] fix: a wrong number of colour components from an
 iterator is rejected

---
 vrml/fieldtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 7fb3e6d..3950fcb 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -852,6 +852,9 @@ class _MFColor(_Color, _MFVec3f):
 
     def coerce(self, value):
         """Adds string coercion for color data types"""
+        if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
+            # may be iterated over twice
+            value = list(value)
         try:
             return super(_MFColor, self).coerce(value)
         except (ValueError, TypeError) as err:
-- 
2.43.0


From feb4ed13474db7d4a2c0913660e1e09de65c7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 32/67] fix: array fields accept strings

---
 vrml/fieldtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 3950fcb..b07667c 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -590,7 +590,10 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ')
+                .replace('[', ' ')
+                .replace(']', ' ')
+                .split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
-- 
2.43.0


From 54a954accf503c3fa9ac54fe80d6a07f54ad4260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 33/67] fix: a cache holder which was replaced does not remove
 its replacement

Clearing the replaced holder, or the death of a node it depended on, deleted
whatever the cache held under the same client and key by then.
---
 vrml/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..52147a2 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -229,7 +229,8 @@ class CacheHolder( object ):
             client_id = id(client)
             current = cache.get( client_id )
             self.data = None
-            if current is None:
+            if current is None or current.get( self.key ) is not self:
+                # already gone, or replaced by another holder
                 return 0
             try:
                 del current[ self.key ]
-- 
2.43.0


From 71f08b356d477a7683bf5c570c2619b6804f16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 34/67] fix: adding to, repeating and copying a weak list deal
 in its items

list + WeakList and the inherited *, *= and copy() gave or stored bare
weak references.
---
 vrml/weaklist.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index 533020b..cd7c804 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -94,6 +94,20 @@ class WeakList( list ):
     def __add__( self, sequence ):
         """Return a list of strong references to our items and sequence's"""
         return self.get() + list( sequence )
+    def __radd__( self, sequence ):
+        """Return a list of sequence's items and strong references to ours"""
+        return list( sequence ) + self.get()
+    def __mul__( self, count ):
+        """Return a list of strong references to our items, repeated"""
+        return self.get() * count
+    __rmul__ = __mul__
+    def __imul__( self, count ):
+        """Repeat the items of this list, each with a reference of its own"""
+        self[:] = self.get() * count
+        return self
+    def copy( self ):
+        """Return a weak list of the same items"""
+        return self.__class__( self.get() )
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-- 
2.43.0


From 997da2488d69d9628b572ea046b2c6ba51b5db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 35/67] fix: a weak list is not disturbed by items collected
 within an operation

An item dying while the list was read made the next one be skipped, and
reading or popping could give None for the one which died.
---
 vrml/weaklist.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index cd7c804..8809f92 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -53,7 +53,8 @@ class WeakList( list ):
         """
         items = [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__iter__()
+            # a copy, as items being collected remove themselves
+            for obj in super( WeakList,self).__getitem__( slice( None ))
         ]
         return [item for item in items if item is not None]
     def __iter__( self ):
@@ -111,13 +112,13 @@ class WeakList( list ):
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        item = super (WeakList,self).__getitem__( index)
-        if isinstance( index, slice ):
-            return [self.unwrap(obj) for obj in item]
-        return self.unwrap(item)
+        return self.get()[index]
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
-        return self.unwrap( super(WeakList,self).pop(index))
+        t = self.get()
+        result = t.pop( index )
+        self[:] = t
+        return result
 
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the list"""
-- 
2.43.0


From afcbe97b8cca0b53dd3a3d74ce08bc08ab6c0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 36/67] fix: the defaults passed to a prototype's
 implementation start no routes in it

The default of a field mapped to a nested prototype was sent along the routes
in there, so that other fields of a new instance lost their declared default.
---
 vrml/node.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index bd79739..8b3f67d 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -201,13 +201,11 @@ class PrototypedNode(object):
                 # the mappings name the template's nodes, bind to our copies
                 destination = destination.copy(copier)
                 if hasattr(sourceField, 'getDefault'):
-                    default = sourceField.getDefault()
                     try:
-                        getField(destination, destinationField).fset(
+                        _initialise(
                             destination,
-                            default,
-                            # so that it reaches the nodes within destination
-                            notify=isinstance(destination, PrototypedNode),
+                            getField(destination, destinationField),
+                            sourceField.getDefault(),
                         )
                     except AttributeError:
                         pass
@@ -232,6 +230,27 @@ class PrototypedNode(object):
             return PrototypedNode.scenegraph.fget(self).children
 
 
+def _initialise(node, field, value):
+    """Set the initial value of a mapped field, which is no event
+
+    The value is set on whatever the field is mapped to within the node as
+    well, but not sent along the routes there.
+    """
+    from vrml import route
+
+    field.fset(node, value, notify=0)
+    if isinstance(node, PrototypedNode):
+        for r in PrototypedNode.scenegraph.fget(node).routes:
+            if (
+                isinstance(r, route.IS)
+                and r.source is node
+                and getField(node, r.sourceField) is field
+            ):
+                _initialise(
+                    r.destination, getField(r.destination, r.destinationField), value
+                )
+
+
 def prototype(
     name,
     fields=(),
-- 
2.43.0


From c063828d73cd5b047107660de46fb7a91f3546c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 37/67] fix: an instance does not join the scene of its own
 implementation

Copying an instance made it belong to its implementation, through the IS
mappings, and registered its name there in place of an inner node's.
---
 vrml/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrml/node.py b/vrml/node.py
index 8b3f67d..a5545ae 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -440,6 +440,11 @@ class RootScenegraphNode(WeakSFNode):
         TODO: this will blow up on cyclic graphs!
         """
         result = super(RootScenegraphNode, self).fset(client, value, notify)
+        from vrml import route
+
+        if isinstance(client, route.IS):
+            # its source is the instance, which is no part of the implementation
+            return result
         for field in getFields(client.__class__):
             if (
                 isinstance(field, SFNode)
-- 
2.43.0


From 38dfb42e3c014e3471aabf07105de74258f22956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 38/67] fix: a comment may end with the text

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..bbf04d2 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -57,7 +57,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,('\n'/EOF))+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From 3a3cb8b0027e12a77b5fd9f2eeb1e8c8e4e90e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 39/67] fix: names of node types and fields may begin with a
 keyword

---
 vrml/vrml97/parser.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index bbf04d2..a52482a 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,40 +19,42 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n]*
 vrmlFile       := header, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',end,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
-fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
+Proto          := 'PROTO',end,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+fieldDecl	   := fieldExposure,end,ts,!,dataType,ts,name,ts,Field,ts
+# a keyword ends where a name would, as names may begin with one
+<end>          := ?[][{}\000-\020"'#,.\\ ]
 fieldExposure  := 'field'/'exposedField'
 dataType       := ('SF'/'MF')?,name
-eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
+eventDecl      := eventDirection,end, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
-extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
+ExternProto    := 'EXTERNPROTO',end,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+extFieldDecl   := fieldExposure,end,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',end,ts, !,name,'.',name, ts, 'TO',end, ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',end,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',end,ts,!,name,ts)?,'Script',end,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection,end, ts, !,dataType, ts, name, ts, ('IS',end, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,end,ts,!,dataType,ts,name,ts,(('IS',end, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',end, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',end, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',end,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',end,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),end
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
-- 
2.43.0


From 6c212f457995cf19686bb0fac47d5da2f6ec2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 40/67] fix: read a text without nodes

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index a52482a..4683b84 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -18,7 +18,7 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := -[\n]*
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, ts, vrmlScene, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',end,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-- 
2.43.0


From 44f39fb6cb944e76d42ca9d358e066ae88aa5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 41/67] fix: save only routes between nodes which are saved

---
 vrml/vrml97/linearise.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index b103f65..3cf79da 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -162,8 +162,12 @@ class Lineariser:
             buffer.write(self.linvalues['full_element_separator'])
         # linearise the routes
         for route in clientNode.routes:
-            # should check here to make sure the ROUTEs are valid
-            self._route(route)
+            # the ends of a ROUTE have to be declared before it
+            if (
+                id(route.source) in self.alreadydone
+                and id(route.destination) in self.alreadydone
+            ):
+                self._route(route)
             # buffer.write( '%(full_element_separator)sROUTE %%s.%%s TO %%s.%%s'%self.linvalues%route )
 
         # restore original alreadydone dictionary
-- 
2.43.0


From 9dad2c3e85f9669d9c262ca23c934d14ebf7be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 42/67] fix: the values of a text are no events

Setting the fields of a prototype's instance from a text sent events along
the routes within, replacing values which the text gives.
---
 vrml/vrml97/parseprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index e92dbf3..f7b07a8 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -337,7 +337,7 @@ class ParseProcessor(DispatchProcessor):
                 value = dispatch(self, value, buffer)
                 if isinstance(clientNode, node.PrototypedNode):
                     # prototyped nodes get IS-value updates
-                    field.fset(clientNode, value, notify=1)
+                    node._initialise(clientNode, field, value)
                 else:
                     field.fset(clientNode, value, notify=0)
             finally:
-- 
2.43.0


From b37483a6d22a60f3c70a2eeb7cd8a9936d0d37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 43/67] fix: errors in texts with characters beyond latin-1 are
 reported

Counting the lines for the message did not end.
---
 vrml/vrml97/parseprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index f7b07a8..c030df0 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,15 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def lines(start=None, end=None, buffer=None):
+    """Count the lines in buffer[start:end]
+
+    simpleparse's own version does not end, and uses up the memory, if there
+    are characters beyond latin-1.
+    """
+    return len(buffer[start or 0 : end or len(buffer)].splitlines())
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
-- 
2.43.0


From de53df90b218928bcfdbc551c5c98556df4d42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 44/67] fix: the fields of a class are found while another
 thread sets its attributes

---
 vrml/protofunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 6f495a6..e354c76 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -166,7 +166,8 @@ def getFields(cls, events=0):
             dict(
                 [
                     (key, value)
-                    for key, value in mro[-1].__dict__.items()
+                    # a list, as other threads may be setting attributes
+                    for key, value in list(mro[-1].__dict__.items())
                     if isinstance(value, wanted)
                 ]
             )
-- 
2.43.0


From cbbe091ea3d90e1049ce13d815884f2a7389eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 45/67] fix: nodes given to an instance of a prototype join its
 scene

A node assigned to a field of an instance was put into the scene of the
instance's implementation by the notification, before it could join the
scene of the instance itself.
---
 vrml/node.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index a5545ae..ee0f63f 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -407,6 +407,17 @@ class SFNode(_SFNode, field.Field):
         """Set the client's value for this property (notifies)"""
         self.fset(client, value)
 
+    def fset(self, client, value, notify=1):
+        """Set the client's value for this property
+
+        The value joins the client's scene before others are told, as they
+        may put it into scenes of their own (prototypes do).
+        """
+        value = super(SFNode, self).fset(client, value, notify=0)
+        if notify:
+            dispatcher.send(('set', self), client, value=value)
+        return value
+
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         if isinstance(value, Node):
@@ -524,13 +535,24 @@ class _MFNode(object):
         """
         previous = client.__dict__.get(self.name)
         if previous is not None:
-            previous[:] = self.coerce(value)
+            value = self.coerce(value)
+            self._join(client, value)
+            previous[:] = value
             value = previous
         else:
             value = super(_MFNode, self).fset(client, value, 0)
+            self._join(client, value)
             self._watchList(client, value)
         if notify:
             dispatcher.send(('set', self), client, value=value)
+        return value
+
+    def _join(self, client, value):
+        """Nodes without a scene join the client's
+
+        This comes before others are told of the nodes, as they may put
+        them into scenes of their own (prototypes do).
+        """
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -538,7 +560,6 @@ class _MFNode(object):
                     valueRoot = Node.rootSceneGraph.fget(val)
                     if not valueRoot:
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
-        return value
 
     def _watchList(self, client, value):
         """Register for updates to the client's list
-- 
2.43.0


From 95abd6107f3d29f3de3e8536ec7327fef7c02ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 46/67] fix: perspectiveMatrix has the same defaults without
 the extensions

---
 vrml/vrml97/_transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..b6af819 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -95,7 +95,7 @@ def transMatrix( source=None ):
     T1 = array( [ [1,0,0,0], [0,1,0,0], [0,0,1,0], [-x,-y,-z,1] ], 'f' )
     return T, T1
 
-def perspectiveMatrix( fovy, aspect, zNear, zFar, inverse=False ):
+def perspectiveMatrix( fovy=pi/2.0, aspect=1.0, zNear=0.1, zFar=10000.0, inverse=False ):
     """Create a perspective matrix from given parameters
     
     Note that this is the same matrix as for gluPerspective,
-- 
2.43.0


From dcbfdb234b3cdf2fb5cfe8ad2348980a2cb998cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 47/67] fix: a rotation without an axis is around the y axis
 without the extensions as with them

---
 vrml/vrml97/_transformmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index b6af819..7695c94 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -22,6 +22,9 @@ def rotMatrix( source=None ):
     else:
         (x,y,z, a) = source
     if a % TWOPI:
+        if x == y == z == 0.0:
+            # no axis is the default axis
+            y = 1.0
         # normalize the rotation vector!
         squared = x*x + y*y + z*z
         if squared != 1.0:
-- 
2.43.0


From 423c26a464496af1766b9e4ea3fb5acf0755f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 48/67] fix: two iterations over the children of a path may
 find the same one gone

Whichever came second failed with a ValueError, and so did an invalidation
within which the children were iterated over again.
---
 vrml/vrml97/nodepath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index 87bc409..f2be118 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -122,7 +122,11 @@ class _NodePath( object ):
                 if child is not None:
                     yield child 
                 else:
-                    self.children.remove( childref )
+                    try:
+                        self.children.remove( childref )
+                    except ValueError:
+                        # another iteration found it first
+                        pass
     def iterdescendents( self ):
         """Iterate over all descendent paths"""
         for child in self.iterchildren():
-- 
2.43.0


From 2df93e3f59555c39445100600c4017220b4820d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 49/67] fix: the URL of an external prototype is complete

A text which ends within the list of URLs, or before it, was read as one with
fewer URLs or none.
---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 4683b84..561a2ef 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -32,7 +32,7 @@ eventDecl      := eventDirection,end, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
 ExternProto    := 'EXTERNPROTO',end,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,end,ts,!,dataType,ts,name,ts
-ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
+ExtProtoURL    := ('[',ts,(SFString,ts)*,']',ts)/(SFString,ts)+  # just an MFString by another name :)
 
 ROUTE          := 'ROUTE',end,ts, !,name,'.',name, ts, 'TO',end, ts, name,'.',name, ts
 
-- 
2.43.0


From 8e9b3f8108f6f6ce6b3e2bc0a5db24d2f5d23e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 50/67] fix: a name given to a routed node is no other node's,
 registered or not

---
 vrml/vrml97/linearise.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 3cf79da..b115e6a 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -123,6 +123,7 @@ class Lineariser:
         A little niave, the sceneGraph just outputs everything
         in its prototypes, then everything in its childlist, then all its ROUTES
         '''
+        self._names = None
         [self._preroute(clientNode, route) for route in clientNode.routes]
         if clientNode is None:
             startind = self.buffer.tell()
@@ -443,13 +444,38 @@ class Lineariser:
             if not DEF:
                 count = 0
                 PROTO = protoName(child)
+                if self._names is None:
+                    self._names = self._usedNames(sceneGraph)
                 while 1:
                     name = "%s_%s" % (PROTO, count)
-                    if sceneGraph.getDEF(name) is None:
+                    if sceneGraph.getDEF(name) is None and name not in self._names:
                         sceneGraph.regDefName(name, child)
                         break
                     count += 1
 
+    def _usedNames(self, sceneGraph):
+        """Get the names of all nodes of the scene, registered or not"""
+        names = set()
+        pending = list(sceneGraph.children)
+        for route in sceneGraph.routes:
+            pending.extend((route.source, route.destination))
+        seen = {}
+        while pending:
+            item = pending.pop()
+            if not isinstance(item, node.Node) or id(item) in seen:
+                continue
+            seen[id(item)] = item
+            names.add(defName(item))
+            for field in getFields(item):
+                if field.nodes and field.name[0] != ' ':
+                    # the declaration of a Script includes its defaults
+                    for value in (field.fget(item), field.getDefault()):
+                        if isinstance(value, list):
+                            pending.extend(value)
+                        else:
+                            pending.append(value)
+        return names
+
     def _route(self, clientNode):
         '''Linearise a route'''
         # should check here to make sure the ROUTEs are valid
-- 
2.43.0


From 24d40b8347565d9c5fec879c8afcf757cf711108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 51/67] fix: a number sets every component of a vector field

---
 vrml/fieldtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index b07667c..6af781f 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -519,8 +519,9 @@ class _SFVec(object):
         if isinstance(value, (str, unicode)):
             value = [float(x) for x in value.replace(',', ' ').split()]
         if isinstance(value, (int, long, float)):
+            number = float(value)
             value = arrays.zeros(self.dimension, self.targetType)
-            value[:] = float(value)
+            value[:] = number
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-- 
2.43.0


From 2f35a12dc42b98589521d955970f8f993053004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 52/67] fix: matrix fields accept sequences

---
 vrml/fieldtypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 6af781f..e91af43 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -32,7 +32,7 @@ INT_TYPE = arrays.typeCode(arrays.array([0], 'i'))
 UINT_TYPE = arrays.typeCode(arrays.array([0], 'I'))
 
 
-def _collapse(inlist, isinstance=isinstance, ltype=list, maxint=MAX_INT):
+def _collapse(inlist, isinstance=isinstance, ltype=(list, tuple), maxint=MAX_INT):
     '''
     Destructively flatten a list hierarchy to a single level.
     Non-recursive, and (as far as I can see, doesn't have any
@@ -528,7 +528,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -538,7 +538,7 @@ class _SFVec(object):
                     % (self.typeName(), repr(value))
                 )
             else:
-                value.reshape(self.dimension)
+                value = value.reshape(self.dimension)
         if value.shape != self.dimension:
             raise ValueError(
                 """%s value of incorrect shape (is %s, should be %s)"""
-- 
2.43.0


From 182d1c7af5a249ac8ecb18e895649e812e86473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 53/67] fix: adding weak tuples and repeating them deal in
 their items

---
 vrml/weaktuple.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 596ad0a..e8e1603 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -110,7 +110,17 @@ class WeakTuple( tuple ):
     def __add__(self, other):
         """Return a new path with other as tail"""
         return tuple(self) + other
-    
+
+    def __radd__(self, other):
+        """Return a new path with other as head"""
+        return other + tuple(self)
+
+    def __mul__(self, count):
+        """Return a tuple with our items repeated"""
+        return tuple(self) * count
+
+    __rmul__ = __mul__
+
     def __eq__( self, sequence ):
         """Compare the tuple to another (==)"""
         return list(self) == sequence
-- 
2.43.0


From a9c0912932383458a05cd1fada976e2c3e120581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 54/67] fix: the centre of a transform is found whatever its
 translation and center

---
 vrml/vrml97/transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From ad471418e699ca7fb13fa18b0ccede39f5d7aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 55/67] fix: copies of prototype namespaces are prototype
 namespaces

---
 vrml/protonamespace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..407d50e 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -7,7 +7,8 @@ class ProtoNamespace( dict ):
             if key in self:
                 return self[ key ]
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
-    def __copy__( self ):
+    def copy( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self )
+    __copy__ = copy
     
-- 
2.43.0


From f3cf886bfa93e2220a915314c952fc57a5ec3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 56/67] fix: named colours are those of CSS

---
 vrml/csscolors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..336c654 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -77,10 +77,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -118,7 +118,7 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
@@ -127,7 +127,7 @@ cssColors = {
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -157,7 +157,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From 90c27d38fa97720d439d7323c04186a9de1b6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 57/67] fix: paths are extended, sliced and compared as paths,
 strong or weak

---
 vrml/nodepath.py        | 34 +++++++++++++++++++++++++++-------
 vrml/vrml97/nodepath.py |  5 ++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..7984a09 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -36,9 +36,10 @@ class NodePath( list ):
         If there is no common sub-root, returns an empty path
         """
         result = []
-        for index in range( min(len(self),len(other))):
-            if self [index] is other [index]:
-                result.append (self [index])
+        # iterating over both holds the nodes of weak paths meanwhile
+        for ours, theirs in zip( self, other ):
+            if ours is theirs:
+                result.append( ours )
             else:
                 break
         return self.__class__(result)
@@ -46,18 +47,32 @@ class NodePath( list ):
         """Return a new path with other as tail"""
         if isinstance( other, node.Node ):
             other = [other]
+        elif isinstance( other, weaklist.WeakList ):
+            other = other.get()
         return self.__class__( super(NodePath, self).__add__( other))
     def __getslice__(self, start, stop):
         """Return a new path with our items from start to stop"""
-        return self.__class__(super (NodePath, self).__getslice__(start, stop))
+        return self[slice( start, stop )]
+    def __getitem__( self, index ):
+        """Return the item at the index, or a new path for a slice"""
+        result = super( NodePath, self ).__getitem__( index )
+        if isinstance( index, slice ):
+            return self.__class__( result )
+        return result
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
-        if len(self) != len(other):
+        # the nodes of weak paths are held while they are compared
+        ours, theirs = list( iter( self )), list( iter( other ))
+        if len(ours) != len(theirs):
             return 0
-        for index in range(len(self)):
-            if self [index] is not other [index]:
+        for our, their in zip( ours, theirs ):
+            if our is not their:
                 return 0
         return 1
+    def __ne__( self, other ):
+        """Check whether we differ from another path"""
+        return not self == other
+    __hash__ = None
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
@@ -66,5 +81,10 @@ class WeakNodePath( NodePath, weaklist.WeakList ):
     wrap all uses of them with checks for
     weakref.ReferenceError to check for dead paths.
     """
+    def __radd__( self, other ):
+        """Extend a strong path, or a list, with our items"""
+        if isinstance( other, NodePath ):
+            return other.__add__( self )
+        return super( WeakNodePath, self ).__radd__( other )
     
     
diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index f2be118..44990f7 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -94,11 +94,10 @@ class _NodePath( object ):
         """Yield all transforming children"""
         t = nodetypes.Transforming
         if reverse:
-            for i in xrange(len(self)-1,-1, -1):
-                item = self[i]
+            for item in reversed( self ):
                 if isinstance(item, t):
                     yield item
-                
+
         else: # forward...
             for item in self:
                 if isinstance(item, t):
-- 
2.43.0


From 5ceac5cd9376527a7cf9d3d0a78eb342678888c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 58/67] fix: prototypes of a text stay out of the namespace it
 is read with

---
 vrml/vrml97/parseprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index c030df0..b2a32cc 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -88,7 +88,8 @@ class ParseProcessor(DispatchProcessor):
             protoTypes = None
         else:
             root = None
-            protoTypes = self.basePrototypes
+            # prototypes of the scene are added to its own namespace
+            protoTypes = self.basePrototypes.copy()
         self.sceneGraphStack.append(
             self.basePrototypes.get('sceneGraph')(
                 root=root,
-- 
2.43.0


From 3bd81a4dcfcf8cd669eb7ee5e0a7658a292001e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 59/67] fix: names in a copied scene find copies of what they
 found

---
 vrml/vrml97/scenegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 58592b0..4d656db 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -179,7 +179,8 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
         newGraph = super( SceneGraph, self).copy( copier )
         newGraph.root = self.root
         newGraph.protoTypes = newPrototypes
-        newGraph.defNames = newDefs
         node.Node.rootSceneGraph.fset( newGraph, newGraph, notify=0 )
+        # which registers the nodes in whatever order they are found
+        newGraph.defNames = newDefs
         return newGraph
     
-- 
2.43.0


From 45fda259d55db99c28e1a59d961ebb3a5a469620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 60/67] fix: a carriage return ends a line of a text

VRML97 ends lines, and with them the header and comments, with linefeeds
or carriage returns; a text with carriage returns alone was read as empty.
---
 vrml/vrml97/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 561a2ef..aabb557 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -17,7 +17,7 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := -[\n]*
+header         := -[\012\015]*
 vrmlFile       := header, ts, vrmlScene, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',end,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
@@ -59,7 +59,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,('\n'/EOF))+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\012\015]*,([\012\015]/EOF))+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From 52e76339b9df8a967779f46f4efa195dacb8c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 61/67] fix: integers of a text may have leading zeros

They are decimal in VRML97, but were refused.
---
 vrml/vrml97/parseprocessor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index b2a32cc..8ecfb98 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -28,6 +28,11 @@ def lines(start=None, end=None, buffer=None):
     return len(buffer[start or 0 : end or len(buffer)].splitlines())
 
 
+def integer(text):
+    """The integer a number of the text stands for, 007 being just seven"""
+    return int(text, 16 if 'x' in text.lower() else 10)
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -381,7 +386,7 @@ class ParseProcessor(DispatchProcessor):
 
     def SFInt32(self, table, buffer):
         (tup,) = table
-        return int(getString(tup, buffer), 0)
+        return integer(getString(tup, buffer))
 
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -410,13 +415,13 @@ class ParseProcessor(DispatchProcessor):
         # localisation
         if not tuples:
             return []
-        return [int(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [integer(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     SFImage = MFInt32
 
     def MFUInt32(self, tuples, buffer):
         # localisation
-        return [long(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [integer(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     def MFFloat(self, tuples, buffer):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
-- 
2.43.0


From 8dde6af4c70fd949f508e64a15b8cc39fa46a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 62/67] fix: values of another kind than their field's are
 refused

Numbers, truth values and nodes were read as empty strings or as the text
of the node, anything but TRUE as FALSE, anything for lists of nodes as
empty ones, and all but the first of several nodes were dropped.
---
 vrml/vrml97/parseprocessor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 8ecfb98..085a7d3 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,16 @@ def getString(*args, **named):
     return as_str(base)
 
 
+# the constructs a value consists of, if not numbers
+FIELD_PARTS = {
+    'SFBool': ('SFBool',),
+    'SFString': ('SFString',),
+    'MFString': ('SFString',),
+    'SFNode': ('USE', 'Script', 'Node', 'SFNull'),
+    'MFNode': ('USE', 'Script', 'Node', 'SFNull'),
+}
+
+
 def lines(start=None, end=None, buffer=None):
     """Count the lines in buffer[start:end]
 
@@ -361,6 +371,17 @@ class ParseProcessor(DispatchProcessor):
     def Field(self, table, buffer):
         '''A field value (of any type)'''
         (tag, start, stop, sublist) = table
+        parts = FIELD_PARTS.get(self.fieldTypeStack[-1], ('SFNumber', 'vector'))
+        wrong = [item for item in sublist if item[0] not in parts]
+        if wrong or (self.fieldTypeStack[-1] == 'SFNode' and len(sublist) != 1):
+            raise ValueError(
+                """Not a value of type %s on line %s: %s"""
+                % (
+                    self.fieldTypeStack[-1],
+                    lines(end=start, buffer=buffer),
+                    as_str(buffer[start:stop])[:60],
+                )
+            )
         if sublist and sublist[0][0] in ('USE', 'Script', 'Node', 'SFNull'):
             if self.fieldTypeStack[-1] == 'SFNode':
                 return dispatch(self, sublist[0], buffer)
-- 
2.43.0


From 0321bd443e6f86355993ec3afd59c693bfb4c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 63/67] fix: the definition of a field can be copied whatever
 its default

The default was copied as a value of the type, which defaults that are
factories or not in the canonical representation are not.
---
 vrml/field.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index c559c7a..ac1d62d 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -249,11 +249,11 @@ class Field(BaseField):
         """
         if isinstance(client, type):
             # copy the field definition itself...
-            return self.__class__(
-                self.name,
-                self.exposure,
-                self.copyValue(self.defaultobj, copier),
-            )
+            default = self.defaultobj
+            if not hasattr(default, '__call__'):
+                # defaults are often not in the canonical representation
+                default = self.copyValue(self.coerce(default), copier)
+            return self.__class__(self.name, self.exposure, default)
         elif self.fhas(client):
             return self.copyValue(self.fget(client), copier)
         else:
-- 
2.43.0


From f0669272ecae4d0b5952a9f5b1ef5777b3bdcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 64/67] fix: attributes of prototypes can be deleted

delSceneGraph and delExternalURL failed, as the namespaces of classes have
no pop().
---
 accelerate/src/fieldaccel2.pyx | 6 +++++-
 vrml/field.py                  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..e6c9f18 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -64,7 +64,11 @@ cdef class BaseField( object ):
     cdef _del(self, client, int notify):
         """Delete the value, with notifications"""
         try:
-            value = client.__dict__.pop( self.name )
+            if isinstance( client, type ):
+                value = client.__dict__[self.name]
+                delattr( client, self.name )
+            else:
+                value = client.__dict__.pop( self.name )
         except KeyError as err:
             raise AttributeError( self.name )
         if notify:
diff --git a/vrml/field.py b/vrml/field.py
index ac1d62d..4e35b52 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -176,7 +176,11 @@ else:
         def _del(self, client, notify):
             """Delete the value, with notifications"""
             try:
-                value = client.__dict__.pop(self.name)
+                if isinstance(client, type):
+                    value = client.__dict__[self.name]
+                    delattr(client, self.name)
+                else:
+                    value = client.__dict__.pop(self.name)
             except KeyError:
                 raise AttributeError(self.name)
             if notify:
-- 
2.43.0


From da06742bed7736da2dc473457a8ccd93d8d9d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:09 +0000
Subject: [PATCH 65/67] fix: standard nodes have the types and defaults VRML97
 gives them

---
 vrml/vrml97/basenodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index 98462f0..7ffd8bd 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -166,7 +166,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     PROTO = 'ElevationGrid'
     #Fields
     zDimension = field.newField( 'zDimension', 'SFInt32', 0, 0)
-    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 0.0)
+    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 1.0)
     creaseAngle = field.newField( 'creaseAngle', 'SFFloat', 0, 0.0)
     normal = field.newField( 'normal', 'SFNode', 1, node.NULL)
     solid = field.newField( 'solid', 'SFBool', 0, 1)
@@ -176,7 +176,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     color = field.newField( 'color', 'SFNode', 1, node.NULL)
     colorPerVertex = field.newField( 'colorPerVertex', 'SFBool', 0, 1)
     xDimension = field.newField( 'xDimension', 'SFInt32', 0, 0)
-    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 0.0)
+    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 1.0)
     normalPerVertex = field.newField( 'normalPerVertex', 'SFBool', 0, 1)
     #Events
     set_height = field.newEvent( 'set_height', 'MFFloat', 0)
@@ -321,7 +321,7 @@ class MovieTexture( nodetypes.Auditory, nodetypes.Texture, nodetypes.TimeDepende
     repeatT = field.newField( 'repeatT', 'SFBool', 0, 1)
     loop = field.newField( 'loop', 'SFBool', 1, 0)
     #Events
-    duration_changed = field.newEvent( 'duration_changed', 'SFFloat', 1)
+    duration_changed = field.newEvent( 'duration_changed', 'SFTime', 1)
     isActive = field.newEvent( 'isActive', 'SFBool', 1)
 
 class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
@@ -330,7 +330,7 @@ class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
     speed = field.newField( 'speed', 'SFFloat', 1, 1.0)
     avatarSize = field.newField( 'avatarSize', 'MFFloat', 1, [0.25, 1.6000000000000001, 0.75])
     headlight = field.newField( 'headlight', 'SFBool', 1, 1)
-    type = field.newField( 'type', 'MFString', 1, ['WALK'])
+    type = field.newField( 'type', 'MFString', 1, ['WALK','ANY'])
     visibilityLimit = field.newField( 'visibilityLimit', 'SFFloat', 1, 0.0)
     #Events
     set_bind = field.newEvent( 'set_bind', 'SFBool', 0)
-- 
2.43.0


From 7cbe38100b04283ca1950c28652669ed44e3da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 66/67] fix: items collected as they are put in a weak list
 leave nothing there

---
 vrml/weaklist.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index 8809f92..131e8ba 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -27,7 +27,8 @@ class WeakList( list ):
         The WeakList will store weak references to objects
         within the sequence.
         """
-        super( WeakList, self).__init__( map( self.wrap, sequence))
+        items = self.strong( sequence )
+        super( WeakList, self).__init__( map( self.wrap, items))
     def wrap( self, item ):
         """Wrap an individual item in a weak-reference
 
@@ -39,6 +40,17 @@ class WeakList( list ):
         if isinstance( item, weakref.ReferenceType ):
             item = item()
         return weakref.ref( item, self.__remover() )
+    def strong( self, sequence ):
+        """Return a list of the items themselves of the sequence
+
+        Held until the references to the items are stored, so that
+        an item collected meanwhile doesn't leave its reference in
+        this list for good.
+        """
+        return [
+            item() if isinstance( item, weakref.ReferenceType ) else item
+            for item in sequence
+        ]
     def unwrap( self, item ):
         """Unwrap an individual item
 
@@ -67,25 +79,30 @@ class WeakList( list ):
     def __setitem__( self, index, item ):
         """Set the item at the given index"""
         if isinstance( index, slice ):
-            item = [self.wrap(x) for x in item]
+            items = self.strong( item )
+            item = [self.wrap(x) for x in items]
         else:
-            item = self.wrap(item)
+            items = self.strong( [item] )
+            item = self.wrap(items[0])
         return super( WeakList,self).__setitem__(
             index, item
         )
     
     def append( self, item ):
         """Append a single item to the list"""
-        return super( WeakList,self).append( self.wrap(item))
+        items = self.strong( [item] )
+        return super( WeakList,self).append( self.wrap(items[0]))
     def insert( self, index, item ):
         """Insert an item at the given index"""
+        items = self.strong( [item] )
         return super( WeakList,self).insert(
-            index, self.wrap(item)
+            index, self.wrap(items[0])
         )
     def extend( self, sequence ):
         """Extend this list with another sequence"""
+        items = self.strong( sequence )
         return super( WeakList, self).extend([
-            self.wrap(obj) for obj in sequence 
+            self.wrap(obj) for obj in items
         ])
     def __iadd__( self, sequence ):
         """Extend this list with another sequence"""
-- 
2.43.0


From b85af0d1135f8d5cd37ddd56a913aa825ce9c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:32 +0000
Subject: [PATCH 67/67] fix: restricted node fields take NULL, where it is
 allowed

---
 vrml/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index ee0f63f..0fe24a4 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -374,7 +374,7 @@ class _SFNode(object):
         """Coerce value to an SFNode reference"""
         if self.requiredTypes and isinstance(value, self.requiredTypes):
             return value
-        elif value is None and self.allowNULL:
+        elif self.allowNULL and (value is None or isinstance(value, NullNode)):
             return NULL
         elif isinstance(value, str):
             raise ValueError(
-- 
2.43.0

