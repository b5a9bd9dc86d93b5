From e511848e0d1e83c470c264c8ecefe08e84f04194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 01/34] fix: URL.info returns its description

The getter fell off its end, so the description of a URL property was None
and declaring a dynamic URL property failed.
---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From cbd7b56f3654c67aa8d35c7eafee0fad913ca136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 02/34] fix: numbers too large to convert are rejected with a
 ValidationError

Integer rejected infinity, and Float and Complex rejected huge integers,
with a bare OverflowError, which no caller (Union, constructor) expects.
---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..ca9c695 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From eee66a9159940fe2b62e1315cbb57396509442fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 03/34] fix: non-finite Float and Complex values equal
 themselves

inf - inf and nan comparisons made an accepted inf or nan differ from
itself, so validate() on an instance holding one always failed.
---
 properties/basic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ca9c695..bed482f 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -770,6 +770,15 @@ def _in_bounds(prop, instance, value):
         prop.error(instance, value, extra='Not within allowed range.')
 
 
+def _is_close(value_a, value_b):
+    """Checks if two numbers are equal within tolerance, or both inf or nan"""
+    return (
+        abs(value_a - value_b) <= TOL or
+        value_a == value_b or
+        (value_a != value_a and value_b != value_b)                            #pylint: disable=comparison-with-itself
+    )
+
+
 class Integer(Boolean):
     """Property for integer values
 
@@ -879,7 +888,7 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return _is_close(value_a, value_b)
         except TypeError:
             return False
 
@@ -928,8 +937,8 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _is_close(value_a.real, value_b.real)
+            imag_equal = _is_close(value_a.imag, value_b.imag)
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From 3edf91176f5bf4f009916d2d19cc174792da3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 04/34] fix: vector arrays do not write into the caller's
 sequence

Replacing direction names in place changed the list that was passed in
(and failed on a tuple); replace them in a copy.
---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From ff6c1e8b15ab99d0e97ab27336d403e53d815fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 05/34] fix: scaling a vector to its length leaves the caller's
 vector alone

With coerce=False the value is the caller's own array, which was scaled
in place.
---
 properties/math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..34c3ad1 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -281,6 +281,7 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 7fc2f558694d942ef3be85229621cd16c368e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 06/34] fix: StringChoice does not rewrite the caller's choices
 dictionary

---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index bed482f..58b506d 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1107,6 +1107,7 @@ class StringChoice(Property):
             value = collections.OrderedDict((v, []) for v in value)
         if not isinstance(value, dict):
             raise TypeError('choices must be a set, list, tuple, or dict')
+        value = value.copy()
         for key, val in value.items():
             if isinstance(val, (set, list, tuple)):
                 value[key] = list(val)
-- 
2.43.0


From b3b049b0f551b9904d9c53476437184190fd57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 07/34] fix: Singleton.deserialize leaves its input dictionary
 unchanged

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From ffa839ea32795e7c95dd4be32bb6898c0c8652cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 08/34] fix: equal does not compare renamed properties a second
 time

The value behind the old name was compared with == rather than with the
equality of the property it redirects to, so equal objects with a renamed
float, array or instance property were reported as different.
---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..cfd0c52 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -644,6 +644,8 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From de3d62feab17c3c3a9fa8613a8dcc9961dc241ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 09/34] fix: deserialize does not store the value of a dynamic
 property

Such a value stayed on the instance and was written out by serialize.
---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index cfd0c52..66b3809 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -582,6 +582,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             valid_val = output_cls._props[key].validate(instance, val)
             instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
-- 
2.43.0


From 8eac4dda06b28ec5d79cb45bbc28b492c25a375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 10/34] fix: a listeners_disabled context may be entered again
 while active

The inner exit overwrote the saved state, so the outer exit left the
listeners disabled for good.
---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..ed2522b 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -28,6 +28,7 @@ class listeners_disabled(object):                                              #
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._previous_states = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,14 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 5dca7647ff8b43c67544c08239796e111c20586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 11/34] fix: deleting a uid does not register the instance
 under undefined

Only one HasUID instance could have its uid deleted; the second raised
'UID already used'.
---
 properties/extras/uid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..f636e72 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -33,7 +33,7 @@ class HasUID(base.HasProperties):
 
     @handlers.validator('uid')
     def _ensure_unique(self, change):
-        if self.uid == change['value']:
+        if change['value'] is utils.undefined or self.uid == change['value']:
             pass
         elif change['value'] in self._INSTANCES:
             raise utils.ValidationError(
@@ -46,7 +46,8 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
-        self._INSTANCES.update({change['value']: self})
+        if change['value'] is not utils.undefined:
+            self._INSTANCES.update({change['value']: self})
 
     @classmethod
     def validate_uid(cls, uid):                                                #pylint: disable=unused-argument
-- 
2.43.0


From e8907b90b9f08ab8a173835b7b815ba59de17f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 12/34] fix: spell the colour name firebrick

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 58b506d..6ab5b7e 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1538,7 +1538,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From 9e368b2cd6c21aa244d1c488ce20ae4a47f70558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 13/34] fix: ImagePNG serializes the whole image wherever the
 stream stands

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From 560ba45fb82b0129f501b395c19f74d435acb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 14/34] fix: ImagePNG rejects an empty file with a
 ValidationError

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..9c04bc0 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -65,7 +65,7 @@ class ImagePNG(File):
             value = super(ImagePNG, self).validate(instance, value)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From 204e001bfcad8429fd3b0809d7956a5410cf1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 15/34] fix: unhashable set items and dictionary keys raise a
 ValidationError

Elements that the element property coerces to something unhashable made
validation end with a bare TypeError.
---
 properties/base/containers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..e675749 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -278,7 +278,10 @@ class Tuple(basic.Property):
                 out += [self.prop.validate(instance, val)]
             except ValueError:
                 self.error(instance, val, extra='This item is invalid.')
-        return out_class(out)
+        try:
+            return out_class(out)
+        except TypeError:
+            self.error(instance, value, extra='These items are not hashable.')
 
     def assert_valid(self, instance, value=None):
         """Check if tuple and contained properties are valid"""
@@ -591,7 +594,10 @@ class Dictionary(basic.Property):
                     val = self.value_prop.validate(instance, val)
                 except ValueError:
                     self.error(instance, val, extra='This value is invalid.')
-            out[key] = val
+            try:
+                out[key] = val
+            except TypeError:
+                self.error(instance, key, extra='This key is not hashable.')
         value = out
         if not self.observe_mutations:
             return value
-- 
2.43.0


From 25a38827aec46dc33327191d2d5b04d660faa1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 16/34] fix: keep an observed container observed while it is
 the stored value

---
 properties/base/containers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index e675749..818509b 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,10 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+        # The container stays observed as long as it is the stored value
+        if self is not getattr(self._instance, self._name):
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From bca3c747ed78f22d6c866e0099c5a5f2c03a2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 17/34] fix: reject values a vector wrapper cannot convert with
 a validation error

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 34c3ad1..c497e8f 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (TypeError, OverflowError):
+                self.error(instance, value, extra='Cannot convert to array.')
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From 2276d9c523198957310921f67d8540d26b85fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 18/34] fix: treat zero-dimensional arrays as single elements
 when coercing to containers

---
 properties/base/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 818509b..c2258bc 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -268,7 +268,10 @@ class Tuple(basic.Property):
         """
         if not self.coerce and not isinstance(value, self._class_container):
             self.error(instance, value)
-        if self.coerce and not isinstance(value, CONTAINERS):
+        if self.coerce and (
+                not isinstance(value, CONTAINERS) or
+                getattr(value, 'ndim', 1) == 0
+        ):
             value = [value]
         if not isinstance(value, self._class_container):
             out_class = self._class_container
-- 
2.43.0


From 990fd452913acf775a1014807782703c38c1fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 19/34] fix: let the nearest class in the resolution order
 decide a default

---
 properties/base/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 66b3809..ca11590 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -220,9 +220,15 @@ class PropertyMetaclass(type):
         )
 
         # Update the class defaults to include inherited values
+        newcls._own_defaults = classdict.get('_defaults', dict())
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            # Each class only contributes what it declares; _defaults of a
+            # HasProperties class also includes what it inherits
+            own = '_own_defaults'
+            if own not in parent.__dict__:
+                own = '_defaults'
+            _defaults.update(parent.__dict__.get(own, dict()))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From bb64e08efa4d717fa327c04528321644a2743461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 20/34] fix: leave a property unset when its callable default
 gives undefined

---
 properties/base/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index ca11590..92b6187 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -274,10 +274,10 @@ class PropertyMetaclass(type):
                     val = obj._defaults[key]
                 else:
                     val = prop.default
-                if val is utils.undefined:
-                    continue
                 if callable(val):
                     val = val()
+                if val is utils.undefined:
+                    continue
                 obj._backend[key] = prop.validate(obj, val)
 
         # Set the other defaults without triggering change notifications
-- 
2.43.0


From d070b44df7dde3b84a40e4ba2b0cdee0c98bfa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 21/34] fix: serialize dynamic values with the serializer of
 their property

---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 6ab5b7e..a49a72d 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -583,6 +583,10 @@ class DynamicProperty(GettableProperty):                                       #
 
         return property(fget=fget, fset=fset, fdel=fdel, doc=scope.sphinx())
 
+    def serialize(self, value, **kwargs):
+        """Serialize dynamic value using prop"""
+        return self.prop.serialize(value, **kwargs)
+
     def equal(self, value_a, value_b):
         """Determine equality based on prop"""
         return self.prop.equal(value_a, value_b)
-- 
2.43.0


From 2c6dae83393a6036215f1fed13e27008bf32f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 22/34] fix: data under a renamed property's old name is read
 and written as the new property

---
 properties/base/base.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 92b6187..db78b1c 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -511,7 +511,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (key, self._json_prop(key, 'serializer').serialize(
+                    getattr(self, key), **kwargs
+                ))
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -579,7 +581,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            prop = output_cls._json_prop(key, 'deserializer')
+            newstate[key] = prop.deserialize(val, **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
@@ -596,6 +599,18 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             raise utils.ValidationError('Deserialized instance is not valid')
         return instance
 
+    @classmethod
+    def _json_prop(cls, key, converter):
+        """Returns the property that converts the value from or to JSON
+
+        This is the new property for a renamed property, unless the renamed
+        property has a serializer or deserializer of its own.
+        """
+        prop = cls._props[key]
+        if isinstance(prop, basic.Renamed) and not getattr(prop, converter):
+            return cls._json_prop(prop.new_name, converter)
+        return prop
+
     @classmethod
     def _deserialize_class(cls, input_cls_name, trusted, strict):
         """Returns the HasProperties class to use for deserialization"""
-- 
2.43.0


From a51a27b4581f64a2026c63d824901f04a3b0c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 23/34] fix: HasUID.deserialize honours assert_valid

---
 properties/extras/uid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index f636e72..b747d28 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -146,6 +146,8 @@ class HasUID(base.HasProperties):
             uid = kwargs.get('root', registry.get('__root__'))
         else:
             uid = value
+            # The root validates nested instances after all are loaded
+            assert_valid = False
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
         if uid in cls._INSTANCES:
@@ -165,6 +167,7 @@ class HasUID(base.HasProperties):
                 value=value,
                 trusted=trusted,
                 strict=strict,
+                assert_valid=assert_valid,
                 registry=registry,
                 _instance=new_inst,
                 **kwargs
-- 
2.43.0


From f6665b702e24967ba81c627e99068f4c1e601ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 24/34] fix: Dictionary.equal answers False for sequences
 instead of raising IndexError

---
 properties/base/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index c2258bc..4e05335 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -676,7 +676,7 @@ class Dictionary(basic.Property):
                 if self.value_prop.equal(value_a[key_a], value_b[key_a]):
                     copy_b.pop(key_a)
             return len(copy_b) == 0
-        except (KeyError, TypeError, AttributeError):
+        except (LookupError, TypeError, AttributeError):
             return False
 
 
-- 
2.43.0


From 77a861d9a4276d85247f72501a5180bca963e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 25/34] fix: comparing arrays (or huge integers) in
 Property.equal answers instead of raising

---
 properties/base/instance.py |  7 ++++++-
 properties/basic.py         | 19 ++++++++++++-------
 properties/math.py          |  2 +-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index 2b622fc..a2140b8 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -155,7 +155,12 @@ class Instance(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return equal(value_a, value_b)
+        if (
+                isinstance(value_a, HasProperties) and
+                isinstance(value_b, HasProperties)
+        ):
+            return equal(value_a, value_b)
+        return super(Instance, self).equal(value_a, value_b)
 
     @staticmethod
     def to_json(value, **kwargs):
diff --git a/properties/basic.py b/properties/basic.py
index a49a72d..279db0e 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -269,10 +269,15 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
-        equal = value_a == value_b
-        if hasattr(equal, '__iter__'):
-            return all(equal)
-        return equal
+        try:
+            equal = value_a == value_b
+            if hasattr(equal, 'all'):
+                return bool(equal.all())
+            if hasattr(equal, '__iter__'):
+                return all(equal)
+            return equal
+        except ValueError:                                                     # Arrays of different shape
+            return False
 
     def get_property(self):
         """Establishes access of GettableProperty values"""
@@ -838,7 +843,7 @@ class Integer(Boolean):
 
     def equal(self, value_a, value_b):                                         #pylint: disable=no-self-use
         """Check if two valid Property values are equal"""
-        return value_a == value_b
+        return GettableProperty.equal(self, value_a, value_b)
 
     @property
     def info(self):
@@ -893,7 +898,7 @@ class Float(Integer):
     def equal(self, value_a, value_b):
         try:
             return _is_close(value_a, value_b)
-        except TypeError:
+        except (TypeError, ValueError, OverflowError):
             return False
 
     @staticmethod
@@ -944,7 +949,7 @@ class Complex(Boolean):
             real_equal = _is_close(value_a.real, value_b.real)
             imag_equal = _is_close(value_a.imag, value_b.imag)
             return real_equal and imag_equal
-        except (TypeError, AttributeError):
+        except (TypeError, ValueError, OverflowError, AttributeError):
             return False
 
     @staticmethod
diff --git a/properties/math.py b/properties/math.py
index c497e8f..9a7c96e 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -174,7 +174,7 @@ class Array(Property):
             if not np.array_equal(nan_mask, ~np.isnan(value_b)):
                 return False
             return np.allclose(value_a[nan_mask], value_b[nan_mask], atol=TOL)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
 
 
-- 
2.43.0


From 6fed028e73a16481e9cc93c014c3119a68de9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 26/34] fix: ImagePNG closes a file it opened when the content
 is not PNG

---
 properties/images.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/images.py b/properties/images.py
index 9c04bc0..a784f7a 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -62,10 +62,13 @@ class ImagePNG(File):
         if isinstance(value, png.Image):
             pass
         else:
+            is_filename = isinstance(value, string_types)
             value = super(ImagePNG, self).validate(instance, value)
             try:
                 png.Reader(value).validate_signature()
             except (png.FormatError, EOFError):
+                if is_filename:
+                    value.close()
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From cc394b0ac4463542aeff2dd9218870ee18a85162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 27/34] fix: a refused link leaves no directional links in
 force

---
 properties/link.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/properties/link.py b/properties/link.py
index 6afaa50..c42d357 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -185,11 +185,17 @@ class link(object):                                                            #
         if kwargs.get('transform', None) is not None:
             raise ValueError('Only directional_links may specify transform')
         self._dlinks = ()
-        for i, item_i in enumerate(items):
-            for j, item_j in enumerate(items):
-                if i == j:
-                    continue
-                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
+        try:
+            for i, item_i in enumerate(items):
+                for j, item_j in enumerate(items):
+                    if i == j:
+                        continue
+                    self._dlinks += (
+                        directional_link(item_i, item_j, **kwargs),
+                    )
+        except Exception:
+            self.unlink()
+            raise
 
     @property
     def dlinks(self):
-- 
2.43.0


From f49a5dbe1e626e0aca47128440369d9ecb148ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 28/34] fix: resolve inherited properties and handlers in the
 order of the class's MRO

Properties, observers and validators a class inherits were collected base
by base, so in a diamond the entry that was used could differ from the
attribute the class really has, and a name replaced by a plain attribute
on a nearer base stayed a property.
---
 properties/base/base.py | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index db78b1c..9ef20e1 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,29 +22,43 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def merge_mros(bases):
+    """Method resolution order of the bases of a class to be created"""
+    pending = [list(base.__mro__) for base in bases] + [list(bases)]
+    merged = []
+    while any(pending):
+        for mro in pending:
+            if mro and not any(mro[0] in other[1:] for other in pending):
+                nearest = mro[0]
+                break
+        else:
+            raise TypeError('Cannot create a consistent method resolution '
+                            'order (MRO) for bases')
+        merged.append(nearest)
+        for mro in pending:
+            if mro and mro[0] is nearest:
+                mro.pop(0)
+    return merged
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
-        if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
-    # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
-                output.update({key: val})
+    # Go through all bases from furthest to nearest ancestor
+    for base in reversed(merge_mros(bases)):
+        if base is object:
+            continue
+        items = {}
+        if isinstance(base, PropertyMetaclass):
+            items = getattr(base, attr)
+        # Remove the items that are overridden on the base...
+        for key in base.__dict__:
+            if key in output and key not in items:
+                output.pop(key)
+        # ...and update the items with those defined on the base
+        for key, val in iteritems(items):
+            if key in base.__dict__:
+                output[key] = val
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
     for key in classdict:
-- 
2.43.0


From e5fb99b32a079fd2055338804dc320c6a391f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 29/34] fix: references repeated in the data of unique-id
 instances can be loaded

The second reference to an instance that is already loaded was refused with
'UID already used', so no graph with a shared instance could be restored.
---
 properties/extras/uid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index b747d28..e31e8e6 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -150,7 +150,8 @@ class HasUID(base.HasProperties):
             assert_valid = False
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
-        if uid in cls._INSTANCES:
+        # References to an instance that is already loaded may be repeated
+        if uid in cls._INSTANCES and cls._INSTANCES[uid] is not registry[uid]:
             raise ValueError('UID already used: {}'.format(uid))
         if uid not in registry:
             raise ValueError('Invalid UID: {}'.format(uid))
-- 
2.43.0


From e057cc21242f0e3139d96f7ddfc167036210a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 30/34] fix: DateTime writes years before 1000 so that they can
 be read back

---
 properties/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 279db0e..6171ad0 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1275,7 +1275,9 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        # strftime does not pad years before 1000, which cannot be read back
+        value = value.replace(microsecond=0, tzinfo=None)
+        return value.isoformat() + 'Z'
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From 10043385b06234e76647a92cb5018d892447ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 31/34] fix: Array data of any of several dtypes keep their
 values when deserialized

---
 properties/math.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 9a7c96e..e919de3 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -217,14 +217,28 @@ class Array(Property):
         """De-serialize the property value from JSON
 
         If no deserializer has been registered, this converts the value
-        to the wrapper class with given dtype.
+        to the wrapper class with given dtype. If several dtypes are given,
+        a value of any of them is kept as it is.
         """
         kwargs.update({'trusted': kwargs.get('trusted', False)})
         if self.deserializer is not None:
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        value = np.array(value)
+        kinds = ''.join(TYPE_MAPPINGS[typ] for typ in self.dtype)
+        if value.dtype.kind not in kinds:
+            value = self._convert_dtype(value)
+        return self.wrapper(value)
+
+    def _convert_dtype(self, value):
+        """Convert array to the first possible dtype"""
+        for typ in self.dtype[:-1]:
+            try:
+                return value.astype(typ)
+            except (TypeError, ValueError):
+                continue
+        return value.astype(self.dtype[-1])
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From ed85c12c373907b2763f213caa9dfcaa45dbbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 32/34] fix: Array writes complex values and single numbers as
 JSON

---
 properties/math.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index e919de3..faf41d2 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -244,17 +244,24 @@ class Array(Property):
     def to_json(value, **kwargs):
         """Convert array to JSON list
 
-        nan values are converted to string 'nan', inf values to 'inf'.
+        nan values are converted to string 'nan', inf values to 'inf',
+        complex values to their string.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            if isinstance(val, complex) or np.isnan(val) or np.isinf(val):
+                return str(val)
+            return val
         return _recurse_list(value.tolist())
 
     @staticmethod
     def from_json(value, **kwargs):
-        return np.array(value).astype(float)
+        value = np.array(value)
+        try:
+            return value.astype(float)
+        except (TypeError, ValueError):
+            return value.astype(complex)
 
 
 class ZeroDivValidationError(ValidationError, ZeroDivisionError):              #pylint: disable=too-many-ancestors
-- 
2.43.0


From 9806318076ed9811ac6c53d8e1959ae28f9a39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 33/34] fix: Vector3 and Vector2 read the text of non-finite
 components

---
 properties/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index faf41d2..16e95ff 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -363,7 +363,7 @@ class Vector3(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector3(value)
+        return vmath.Vector3(np.array(value).astype(float))
 
 
 class Vector2(BaseVector):
@@ -414,7 +414,7 @@ class Vector2(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector2(value)
+        return vmath.Vector2(np.array(value).astype(float))
 
 
 class Vector3Array(BaseVector):
-- 
2.43.0


From 04376be2966ff5c280c286adb58cd01a24c0c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 34/34] fix: Dictionary validation ignores elements whose check
 answers False

---
 properties/base/containers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 4e05335..d0c724f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -619,10 +619,16 @@ class Dictionary(basic.Property):
             return True
         if self.key_prop or self.value_prop:
             for key, val in iteritems(value):
-                if self.key_prop:
-                    self.key_prop.assert_valid(instance, key)
-                if self.value_prop:
-                    self.value_prop.assert_valid(instance, val)
+                if (
+                        self.key_prop and
+                        not self.key_prop.assert_valid(instance, key)
+                ):
+                    return False
+                if (
+                        self.value_prop and
+                        not self.value_prop.assert_valid(instance, val)
+                ):
+                    return False
         return True
 
     def serialize(self, value, **kwargs):
-- 
2.43.0

