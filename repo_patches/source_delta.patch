From 40a2a6f8df186759f42de251f532e87ffbc1d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 01/11] fix: accept the documented trailing comma in custom
 dice

---
 python_dice/src/expression/dice_expression_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..e6de44d 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -34,7 +34,7 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
         value_dictionary = {-1: 1, 0: 1, 1: 1}
     else:
         value_dictionary = {}
-        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string).rstrip(",")):
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From e206339867fbff61128738df0a83a0fe6a2f10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 02/11] fix: a custom dice side multiplied by zero is not a
 possible outcome

---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index e6de44d..f299077 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -42,6 +42,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
+            if int(multiplier) == 0:
+                continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
     return value_dictionary
-- 
2.43.0


From 9ee04fe395a0ddffa5f576b75584f0530416efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 03/11] fix: the distribution of zero dice is always 0, as
 roll, max and min report

---
 python_dice/src/expression/dice_expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..5e94e0f 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -56,6 +56,8 @@ class DiceExpression(IDiceExpression):
         return f"{self._string_form}"
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
+        if self._number_of_dice == 0:
+            return self._probability_distribution_factory.create({0: 1})
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-- 
2.43.0


From 3664c091a42fb376a3306dae1666ca7f5c6c8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 04/11] fix: rolling NOT treats only values above 0 as true

---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 6c9018749eb11c77dac281ee098b9d5c528ad2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 05/11] fix: rolling OR treats only values above 0 as true

---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..8771577 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __or_operator__(this: object, other: object):
+        if isinstance(this, int) and isinstance(other, int):
+            return this > 0 or other > 0
+        return operator.or_(this, other)
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__or_operator__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From 1ca3fff7291f4feae7c200615e5be60ca78e0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 06/11] fix: interpreter results no longer alias the
 interpreter state

---
 python_dice/src/python_dice_interpreter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python_dice/src/python_dice_interpreter.py b/python_dice/src/python_dice_interpreter.py
index cdef5d0..89da530 100644
--- a/python_dice/src/python_dice_interpreter.py
+++ b/python_dice/src/python_dice_interpreter.py
@@ -46,7 +46,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.roll()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -55,7 +55,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.max()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -64,7 +64,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.min()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -73,7 +73,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.get_dict_form() for key, value in return_dict.items()}
 
@@ -82,7 +82,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: return_dict[key] for key in return_dict.keys()}
 
@@ -91,7 +91,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.average() for key, value in return_dict.items()}
 
-- 
2.43.0


From b2dce0234b2ebff84c75cb15b96745afdfce66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:33 +0000
Subject: [PATCH 07/11] fix: close the matplotlib figure behind every rendered
 plot

---
 .../probability_distribution.py                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..9b34b88 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -136,7 +136,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -151,7 +151,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
                 label=f"Average = {average}",
             )
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="tiff")
+        figure.savefig(buffer, format="tiff")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -167,7 +168,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -175,7 +176,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.set_xlabel("outcome")
         axis.legend()
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="png")
+        figure.savefig(buffer, format="png")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0


From e8133e23de117a9e06114980b905ca290c08f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:42 +0000
Subject: [PATCH 08/11] fix: the compare histogram no longer stretches a bar
 over the gap between two distributions

---
 .../src/probability_distribution/probability_distribution.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9b34b88..49be288 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -55,6 +55,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         other_histogram_data = self._get_histogram_form(other_probability.get_dict_form())
         x_values = list(this_histogram_data.keys())
         x_values.extend(other_histogram_data.keys())
+        x_values.extend(set(range(min(x_values), max(x_values) + 1)).difference(x_values))
 
         def y_value_calculator(key):
             value = 0
-- 
2.43.0


From 7965749200596bda028986cfa567418dda033ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:50 +0000
Subject: [PATCH 09/11] fix: a failing max or min assignment no longer stores
 half of the variable

---
 python_dice/src/expression/var_assignment_expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/var_assignment_expression.py b/python_dice/src/expression/var_assignment_expression.py
index 7c1b05a..ec3f58a 100644
--- a/python_dice/src/expression/var_assignment_expression.py
+++ b/python_dice/src/expression/var_assignment_expression.py
@@ -40,14 +40,16 @@ class VarAssignmentExpression(IDiceExpression):
 
     def max(self) -> int:
         max_value = self._expression.max()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, max_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return max_value
 
     def min(self) -> int:
         min_value = self._expression.min()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, min_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return min_value
 
     def __str__(self) -> str:
-- 
2.43.0


From 030260ef9a9c35053840f5ecae908caf3f2d1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:59 +0000
Subject: [PATCH 10/11] fix: the cost estimate of a negation is exact and no
 longer overflows for huge operands

---
 python_dice/src/expression/not_expression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 86269f8..797d61c 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -1,4 +1,3 @@
-import math
 from typing import Callable, Set
 
 import rply  # type: ignore
@@ -39,7 +38,7 @@ class NotExpression(IDiceExpression):
         return f"!{str(self._expression)}"
 
     def estimated_cost(self) -> int:
-        return int(math.floor(self._expression.estimated_cost() * 1.1))
+        return self._expression.estimated_cost() * 11 // 10
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
         return self._expression.get_probability_distribution().not_operator()
-- 
2.43.0


From 1b6645a2a77f14d8039e0f4b8c999b112936b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:59 +0000
Subject: [PATCH 11/11] fix: a distribution's constraint result map is handed
 out as a copy

---
 .../src/probability_distribution/probability_distribution.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 49be288..a9ec7ee 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -234,7 +234,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         return new_result_map
 
     def get_constraint_result_map(self) -> Dict[IProbabilityOutcome, int]:
-        return self._result_map
+        return dict(self._result_map)
 
     def get_dict_form(self) -> Dict[int, float]:
         return {key: value / self._outcome_count for key, value in self.get_result_map().items()}
-- 
2.43.0

