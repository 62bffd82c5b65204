From 8669527929680e361e95823e7dc19f79e5ea5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 01/31] fix: subtraction and division in retrieval keys are
 left-associative

'a - b - c' was evaluated as a - (b - c) and 'a / b / c' as a / (b / c) in
EquationGroup / EquationDirectory retrieval keys.
---
 NRWAL/handlers/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..3b76d6e 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -176,7 +176,12 @@ class AbstractGroup(ABC):
 
         for op_str, op_fun in op_map.items():
             if op_str in key:
-                split_keys = key.partition(op_str)
+                # minus and divide are left-associative: a - b - c
+                if op_str in ('-', '/'):
+                    split_keys = key.rpartition(op_str)
+                else:
+                    split_keys = key.partition(op_str)
+
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-- 
2.43.0


From 6dc29bca11c3df56ffdfebae6f010e3e7bbac923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 02/31] fix: NrwalConfig does not modify the config dictionary
 passed in

The equation_directory and the interp / nearest flags were popped from the
user's dictionary and its expressions were replaced with Equation objects, so
that the same dictionary could not be used a second time.
---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..5593aba 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -326,6 +326,9 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        # do not modify the dictionary passed in by the user
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From b643bda058c0e4d7f6f6aaf630a857b60109228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 03/31] fix: parse variables of numeric expressions in
 scientific notation

A config constant like 1e-5 raised an AttributeError because the float value
(str: '1e-05') has no replace() method.
---
 NRWAL/handlers/equations.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..570f09f 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -389,9 +389,7 @@ class Equation:
 
         # finds and replaces all scientific notation numbers
         re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        expression = re_num.sub('-1', str(expression))
 
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-- 
2.43.0


From db1fb282e1c3600a5f928ed7fb353debe1efb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 04/31] fix: do not parse part of a variable name as a number

The variable tier2eff was parsed as the variables tier and 1ff because 2e was
taken for scientific notation.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 570f09f..403db5d 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -388,7 +388,7 @@ class Equation:
         """Parse variable names from an expression string."""
 
         # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
+        re_num = re.compile(r'(?<![a-zA-Z0-9_])[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
         expression = re_num.sub('-1', str(expression))
 
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
-- 
2.43.0


From 94491c5641be976d05175370af700d006dd39936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 05/31] fix: insert group equations for whole variable names
 only

With the group {x: 2, y: x * x_max} the equation y became (2) * (2)_ma(2).
---
 NRWAL/handlers/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 3b76d6e..953c10f 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -757,7 +757,9 @@ class EquationGroup(AbstractGroup):
                     continue
                 for var in [v for v in eqn.variables if v in group]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    new_eqn = re.sub(
+                        r'(?<![\w.]){}(?![\w.])'.format(re.escape(var)),
+                        lambda _, repl=repl_str: repl, eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From cd5579787a06d73bbf76d0d41a821992d25aa967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:41 +0000
Subject: [PATCH 06/31] fix: only interpolate equations when requested and
 possible

With interp_extrap_power any key that could not be found raised a ValueError
instead of a KeyError (the operators 'or' and 'and' were missing parenthesis),
and interp_extrap_power with use_nearest_year (and vice versa) interpolated
the year (power) instead of using the nearest one.
---
 NRWAL/handlers/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 953c10f..88fa531 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -245,8 +245,10 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
-                    and len(nn_eqns) > 1):
+            elif (len(nn_eqns) > 1
+                    and (self._interp_extrap_power
+                         if self.is_power_eqn(eqn_key)
+                         else self._interp_extrap_year)):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-- 
2.43.0


From 842bc688b5f36901cdb1393a192c6a71730770d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:41 +0000
Subject: [PATCH 07/31] fix: keys like cost_per_MW are not power-based
 equations

The power of a key ending in _MW was parsed as float('') which raised a
ValueError for every power-based lookup in the same group.
---
 NRWAL/handlers/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 88fa531..bee6843 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -389,7 +389,7 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
             base_str = key.replace(power.group(0), '')
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
-- 
2.43.0


From f706e53f9c0f688b2e70295053fcf8ef0512498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:41 +0000
Subject: [PATCH 08/31] fix: only strip the trailing power or year from
 equation keys

The base name of a_5MW_5MW was parsed as a, so that requesting it could return
equations of the unrelated a_*MW.
---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index bee6843..ea58e11 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -391,7 +391,7 @@ class AbstractGroup(ABC):
         base_str = key
         power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -498,7 +498,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From d131dc90753c09387c78947a8cf91cd8b460fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:41 +0000
Subject: [PATCH 09/31] fix: default variables of a directory do not leak to
 its siblings

The variables.yaml of a sub directory was added to the namespace of its parent
and was therefore also set as default variables in all of the sub directories
that came after it in alphabetical order.
---
 NRWAL/handlers/directories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..b628059 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -534,8 +534,8 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # do not modify the input: it is shared with other directories
+        var_group = {} if var_group is None else dict(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
-- 
2.43.0


From b3770cc01e51de20a6e1844a6fed8202bca271f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:41 +0000
Subject: [PATCH 10/31] fix: adding directories or groups does not modify the
 right operand

The result shared the objects of the right operand, so that the default
variables set in the result were also set in the right operand.
---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index b628059..0e2780b 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index ea58e11..e3772e2 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From c435479890370b7cf1db0703be61555247c59a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:25 +0000
Subject: [PATCH 11/31] fix: parse numpy methods in config expressions

Expressions with parenthesis before the numpy method like (a + b) * np.exp(c)
or with operators in its arguments like np.exp(a * b) raised a RecursionError
or were parsed into a meaningless equation.
---
 NRWAL/handlers/config.py     |  9 +++++++--
 NRWAL/utilities/utilities.py | 18 +++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5593aba..8f45111 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -593,16 +593,21 @@ class NrwalConfig:
             logger.error(msg)
             raise ValueError(msg)
 
+        if find_np_pd_methods(expression) == (0, len(expression)):
+            # a single np/pd call, the arguments are evaluated by the Equation
+            return Equation(expression)
+
         while '(' in expression:
             start_loc, end_loc = find_np_pd_methods(expression)
-            if start_loc is None:
+            is_method = start_loc is not None
+            if not is_method:
                 start_loc, end_loc = find_parens(expression)[0]
 
             wkey = 'workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
-            if 'np.' not in pk and 'pd.' not in pk:
+            if not is_method:
                 pk = pk.lstrip('(').rstrip(')')
 
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..a109318 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -3,7 +3,7 @@
 NRWAL utilities module.
 """
 import os
-import numpy as np
+import re
 
 
 NRWAL_DIR = os.path.dirname(os.path.dirname(os.path.dirname(
@@ -62,16 +62,12 @@ def find_np_pd_methods(s):
         Starting and ending indices of the first np. or pd. method. So if
         s="10 + np.exp(input)" then s[start:end]="np.exp(input)"
     """
-    start = 0
-    if 'np.' not in s and 'pd.' not in s:
+    method = re.search(r'\b(np|pd)\.[\w.]*\(', s)
+    if method is None:
         return None, None
-    elif 'np.' in s:
-        start = s.index('np.')
-    elif 'pd.' in s:
-        start = s.index('pd.')
-
-    paren_ind = find_parens(s)
-    np_paren = np.argmin([x[0] for x in paren_ind])
-    end = paren_ind[np_paren][1]
+
+    start = method.start()
+    open_paren = method.end() - 1
+    end = [x[1] for x in find_parens(s) if x[0] == open_paren][0]
 
     return start, end
-- 
2.43.0


From 275516fc1554ba24a9c5f97d57b40d15577423db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:05 +0000
Subject: [PATCH 12/31] fix: subtraction and division in config expressions are
 left-associative

'a - b - c' was evaluated as a - (b - c), 'a / b / c' as a / (b / c) and
'a * -b - c' as a * (-b - c) in NrwalConfig expressions.
---
 NRWAL/handlers/config.py | 65 +++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 8f45111..9d53006 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -633,43 +633,40 @@ class NrwalConfig:
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
 
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
-
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
-                    out = Equation(-1) * out
-                    break
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
+                if ops == '-':
+                    # last minus sign that is a subtraction and not the sign
+                    # of a negative number / variable (e.g. -var or *-var)
+                    iop = expr.rfind(ops)
+                    while iop > -1 and (expr[:iop].strip() or '+')[-1] in op_map:
+                        iop = expr.rfind(ops, 0, iop)
+
+                    if iop == -1 and expr.strip()[0] == ops:
+                        # leading minus sign (negative number)
+                        v1 = expr.strip()[1:].strip()
+                        out = cls._parse_expression_part(v1, config, eqn_dir,
+                                                         gvars)
+                        out = Equation(-1) * out
+                        break
+
+                    if iop == -1:
+                        # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
+                        continue
+
+                    split = (expr[:iop], ops, expr[iop + 1:])
+
+                elif ops == '/':
+                    # left-associative: a / b / c
+                    split = expr.rpartition(ops)
 
                 else:
-                    # normal operation on two numbers / variables
                     split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
+
+                # normal operation on two numbers / variables
+                v1, v2 = split[0].strip(), split[2].strip()
+                out1 = cls._parse_expression_part(v1, config, eqn_dir, gvars)
+                out2 = cls._parse_expression_part(v2, config, eqn_dir, gvars)
+                out = fun(out1, out2)
+                break
 
         if out is None:
             msg = 'Failed to parse expression: {}'.format(expr)
-- 
2.43.0


From d4b4f5add1e41032644a2d7efc941ed80a808a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:05 +0000
Subject: [PATCH 13/31] fix: raise negative number equations to a power

Equation(-2) ** 2 evaluated to -(2 ** 2).
---
 NRWAL/handlers/equations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 403db5d..b86640a 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -143,6 +143,9 @@ class Equation:
             arg1 = '({})'.format(arg1)
         if not self.is_num(arg2) and not self.is_variable(arg2):
             arg2 = '({})'.format(arg2)
+        if operator == '**' and arg1.strip().startswith('-'):
+            # the power operator binds tighter than the negative sign
+            arg1 = '({})'.format(arg1)
 
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
         new_str = '({} {} {})'.format(self, operator, other)
-- 
2.43.0


From 94560fdd879ac63664a0bf6fc652dc40325e27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:06 +0000
Subject: [PATCH 14/31] fix: config evaluation does not depend on the order of
 the equations

An equation using the result of another equation that comes later in the
config raised a RuntimeError (or used a default variable of the same name
instead of the result).
---
 NRWAL/handlers/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 9d53006..4eacffe 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -999,6 +999,12 @@ class NrwalConfig:
                         or Equation.is_num(v)):
                     pass
                 elif isinstance(v, Equation):
+                    unsolved = self.to_be_solved
+                    if any(x in unsolved and x != k and x not in self.inputs
+                           for x in v.variables):
+                        # solve the other equations first
+                        continue
+
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update(self._outputs)
-- 
2.43.0


From e479bb46806723214c66724b1587a207b18ae8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:06 +0000
Subject: [PATCH 15/31] fix: evaluating a config with new inputs returns new
 outputs

A second call to evaluate() returned the outputs of the first call, even if
new inputs had been set.
---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 4eacffe..74b88be 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -992,6 +992,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # outputs of a previous evaluation may be from different inputs
+        self.reset_output()
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From 9ff97d40ea33bc40776e37d8a703c6061ba4225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:06 +0000
Subject: [PATCH 16/31] fix: parse variables separated by commas without a
 space

np.maximum(a,b) could not be evaluated because of the missing input 'a,b'.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index b86640a..69ae69e 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -394,7 +394,7 @@ class Equation:
         re_num = re.compile(r'(?<![a-zA-Z0-9_])[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
         expression = re_num.sub('-1', str(expression))
 
-        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+        delimiters = ('*', '/', '+', '-', ' ', ',', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From ac4e735fe6bf29fa38f5573de67f3b5507d67588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:06 +0000
Subject: [PATCH 17/31] fix: recognize python builtin methods in equations

In an imported module __builtins__ is a dictionary, so that max was taken for
a variable in max(a, b) and the variable 'values' (a method of dict) was not.
---
 NRWAL/handlers/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 69ae69e..4757456 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -2,6 +2,7 @@
 """
 Handler objects to interface with single NRWAL equation strings.
 """
+import builtins
 import copy
 import re
 import numpy as np
@@ -355,7 +356,7 @@ class Equation:
     @staticmethod
     def is_method(s):
         """Check if a string is a numpy/pandas or python builtin method"""
-        return bool(s.startswith(('np.', 'pd.')) or s in dir(__builtins__))
+        return bool(s.startswith(('np.', 'pd.')) or s in dir(builtins))
 
     @classmethod
     def is_variable(cls, s):
-- 
2.43.0


From d7f79caf58d81231e722eca3815a475e09717f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 18/31] fix: parse variables in comparisons and numbers without
 leading digit

---
 NRWAL/handlers/equations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 4757456..b33a47e 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -392,10 +392,12 @@ class Equation:
         """Parse variable names from an expression string."""
 
         # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'(?<![a-zA-Z0-9_])[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
+        re_num = re.compile(r'(?<![a-zA-Z0-9_])'
+                            r'(?:[0-9]+\.?[0-9]*|\.[0-9]+)[eE][-+]?[0-9]*')
         expression = re_num.sub('-1', str(expression))
 
-        delimiters = ('*', '/', '+', '-', ' ', ',', '(', ')', '[', ']', '>', '<')
+        delimiters = ('==', '!=', '>=', '<=', '*', '/', '+', '-', ' ', ',',
+                      '(', ')', '[', ']', '>', '<', '&', '|')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From fc3fe05e12e7d425265f17cf1379e7563c468c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 19/31] fix: redundant parentheses in config expressions and
 retrieval keys

---
 NRWAL/handlers/config.py | 10 +++++++---
 NRWAL/handlers/groups.py |  6 ++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 74b88be..8d45901 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -608,10 +608,14 @@ class NrwalConfig:
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
             if not is_method:
-                pk = pk.lstrip('(').rstrip(')')
+                pk = pk.lstrip('(').rstrip(')').strip()
 
-            gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
-                                                gvars, name=name)
+            if pk in gvars:
+                # redundant parentheses e.g. ((a + b))
+                gvars[wkey] = gvars[pk]
+            else:
+                gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
+                                                    gvars, name=name)
 
         if expression in gvars:
             return gvars[expression]
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index e3772e2..28e4f43 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -168,8 +168,10 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
-            workspace[wkey] = obj._getitem(pk, workspace)
+            pk = pk.lstrip('(').rstrip(')').strip()
+            # parentheses can be redundant e.g. ((a + b))
+            workspace[wkey] = (workspace[pk] if pk in workspace
+                               else obj._getitem(pk, workspace))
 
         if key in workspace:
             return workspace[key]
-- 
2.43.0


From 253aa7ed1e37a01f0d0386e06a18315e8cbdb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 20/31] fix: workspace equations are not default variables of
 config equations

---
 NRWAL/handlers/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 8d45901..e080de5 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -551,10 +551,13 @@ class NrwalConfig:
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
+
+        # the workspace equations in gvars are not variables
+        def_vars = {k: v for k, v in gvars.items() if isinstance(v, float)}
         if isinstance(out, (Equation, EquationGroup)):
-            out.set_default_variables(gvars)
+            out.set_default_variables(def_vars)
         elif isinstance(out, EquationDirectory):
-            out.set_default_variables(gvars, force_update=True)
+            out.set_default_variables(def_vars, force_update=True)
 
         return out
 
-- 
2.43.0


From 023f0188577fecccbedd2b4bb6e93d9666b075da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 21/31] fix: a path that continues below an equation is a
 missing key

---
 NRWAL/handlers/directories.py | 7 +++++++
 NRWAL/handlers/groups.py      | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 0e2780b..887f29e 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -347,6 +347,13 @@ class EquationDirectory:
 
         eqns = self._eqns
         for ikey in keys:
+            if not hasattr(eqns, 'keys'):
+                msg = ('Could not retrieve equation key "{}", there is no '
+                       '"{}" in: {}'.format(key, ikey, eqns))
+                # debug log statement to avoid unnecessary stdout
+                logger.debug(msg)
+                raise KeyError(msg)
+
             try:
                 eqns = eqns[ikey]
             except KeyError:
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 28e4f43..7660974 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -241,6 +241,12 @@ class AbstractGroup(ABC):
         keys = [str(k) for k in keys]
         out = self._group
         for eqn_key in keys:
+            if not hasattr(out, 'keys'):
+                msg = ('Could not retrieve equation key "{}", there is no '
+                       '"{}" in: {}'.format(key, eqn_key, out))
+                logger.error(msg)
+                raise KeyError(msg)
+
             nn_eqns, nn_values, eqn_value = \
                 self._get_nn_eqns_values(eqn_key, keys, out)
 
-- 
2.43.0


From 0b73c95b52336f9a38ffbce7968cac71732723c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 22/31] fix: forward force_update to nested equation
 directories

Constants of a config did not override the local variables.yaml of
directories below a directory referenced by the config.
---
 NRWAL/handlers/directories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 887f29e..e7c8609 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -554,7 +554,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From 7e285a38d480729a4f251cd4000634ed58d7f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 23/31] fix: allow config references to an equation directory
 parsed earlier

A reference to an entry that is an EquationDirectory only worked if the
directory entry was written after the entry using it.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index e080de5..a9a0643 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -518,7 +518,8 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup)):
+        if isinstance(expression, (Equation, EquationGroup,
+                                   EquationDirectory)):
             out = expression
 
         elif Equation.is_num(expression):
-- 
2.43.0


From 0b4ba3e81ce189bc162853635aa7a135ba79caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 24/31] fix: solve long chains of config entries written in
 reverse order

Each pass solves at least one entry, so the number of passes that can be
needed is the number of entries and not 100.
---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a9a0643..4071e57 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1051,7 +1051,7 @@ class NrwalConfig:
                     raise TypeError(msg)
 
             i += 1
-            if i > 100:
+            if i > max(100, len(self._config)):
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From 5946b771f6ffe1761a945b9ad268878c2dd9b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:14 +0000
Subject: [PATCH 25/31] fix: a config entry named '' counts as unsolved until
 it has been evaluated

---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 4071e57..1fb383d 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -932,7 +932,7 @@ class NrwalConfig:
         -------
         bool
         """
-        return not any(self.to_be_solved)
+        return not self.to_be_solved
 
     def get(self, key, default_value):
         """Attempt to get a key from the NrwalConfig, return
-- 
2.43.0


From e77cb1562c01ac62b3cd8fde962340ad7af79de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 26/31] fix: tabs and line breaks separate the names of an
 expression

---
 NRWAL/handlers/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index b33a47e..12b236d 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -397,7 +397,8 @@ class Equation:
         expression = re_num.sub('-1', str(expression))
 
         delimiters = ('==', '!=', '>=', '<=', '*', '/', '+', '-', ' ', ',',
-                      '(', ')', '[', ']', '>', '<', '&', '|')
+                      '(', ')', '[', ']', '>', '<', '&', '|',
+                      '\t', '\n', '\r')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From 3125ff2bb19933151f200100d6bf6659ddfe19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:55 +0000
Subject: [PATCH 27/31] fix: a numpy call that is repeated inside another one
 is not replaced there

---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 1fb383d..4eb6904 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -610,7 +610,8 @@ class NrwalConfig:
             wkey = 'workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
-            expression = expression.replace(pk, wkey)
+            expression = (expression[:start_loc] + wkey
+                          + expression[end_loc:])
             if not is_method:
                 pk = pk.lstrip('(').rstrip(')').strip()
 
-- 
2.43.0


From 70f23f9180c2239cd07aa84a21d4285d659516ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:56 +0000
Subject: [PATCH 28/31] fix: nearest and interpolated lookup when a path
 repeats its last component

The last component was recognised by its first index in the list of
components, so a path such as x_7MW::x_7MW never reached the nearest or
interpolated entries of the inner group.
---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 7660974..f4d6740 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -240,7 +240,7 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for i, eqn_key in enumerate(keys):
             if not hasattr(out, 'keys'):
                 msg = ('Could not retrieve equation key "{}", there is no '
                        '"{}" in: {}'.format(key, eqn_key, out))
@@ -248,7 +248,7 @@ class AbstractGroup(ABC):
                 raise KeyError(msg)
 
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[i:], out)
 
             if eqn_key in out:
                 out = out[eqn_key]
-- 
2.43.0


From d47c40c62841294ac561bd1552b4059b5919cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 29/31] fix: a missing name that is a global of the equations
 module is reported as missing

---
 NRWAL/handlers/equations.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 12b236d..ebb53b3 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -472,9 +472,7 @@ class Equation:
         kwargs = self._check_input_args(kwargs)
         kwargs = self._merge_vars(self._default_variables, kwargs)
 
-        missing = [v for v in self.variables
-                   if v not in globals()
-                   and v not in kwargs]
+        missing = [v for v in self.variables if v not in kwargs]
         if any(missing):
             msg = ('Cannot evaluate "{}", missing the following input args: {}'
                    .format(self, missing))
-- 
2.43.0


From 33f0567d4403a13ebf97e9b39ef704b41af0feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 30/31] fix: entries and inputs named like a temporary
 workspace key are not overwritten by it

---
 NRWAL/handlers/config.py | 3 ++-
 NRWAL/handlers/groups.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 4eb6904..bf5cdc6 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -607,7 +607,8 @@ class NrwalConfig:
             if not is_method:
                 start_loc, end_loc = find_parens(expression)[0]
 
-            wkey = 'workspace_{}'.format(1 + len(gvars))
+            # not a possible name of an equation or variable
+            wkey = '::workspace_{}::'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = (expression[:start_loc] + wkey
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index f4d6740..7b99386 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -164,7 +164,8 @@ class AbstractGroup(ABC):
 
         while '(' in key:
             start_loc, end_loc = find_parens(key)[0]
-            wkey = 'workspace_{}'.format(1 + len(workspace))
+            # not a possible name of an equation or variable
+            wkey = '::workspace_{}::'.format(1 + len(workspace))
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-- 
2.43.0


From a168891ed52bf631e895fc3d8c191346e154eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:20 +0000
Subject: [PATCH 31/31] fix: a retrieval key with a malformed product of
 parentheses raises a key error

---
 NRWAL/handlers/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 7b99386..723afd1 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -198,6 +198,10 @@ class AbstractGroup(ABC):
 
                 return op_fun(out1, out2)
 
+        msg = 'Could not parse equation key: "{}"'.format(key)
+        logger.error(msg)
+        raise KeyError(msg)
+
     def _getitem(self, key, workspace):
         """Protected method for __getitem__ with additional args for
         recursive call.
-- 
2.43.0

