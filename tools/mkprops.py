"""writes /verif/properties.jsonl (source of the property list)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=["quantities/" + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}),
                               **({"state": state} if state else {}))))


I = ["inputs"]
IP = ["inputs", "programs"]
IH = ["inputs", "histories"]
IC = ["inputs", "configurations"]
Q = "quantities/"

p("C01", "Unit conversion preserves the physical value",
  "Converting a quantity to any compatible unit or product of unit powers multiplies its magnitudes by exactly (size of the old unit / size of the new unit), labels the result with exactly the requested units, keeps its shape, and leaves the original untouched. Converting there and back, or through any intermediate unit, gives the value of the direct conversion.",
  I, "all magnitudes, all pairs of units of any (positive) size and any chain of definitions, integer exponents -3..3, all shapes up to 4 elements",
  "The tests convert a handful of built-in units at sample magnitudes; the claim is about every magnitude, unit size and exponent, including user-defined units.",
  ["quantity.py", "unitquantity.py"],
  [("conversion factor", "Quantity.rescale / get_conversion_factor"), ("reference of a unit", "Quantity._reference, UnitQuantity._reference")],
  ["Quantity.rescale", "Quantity.magnitude", "Quantity.dimensionality"])

p("C02", "Physically incompatible quantities are refused, never combined",
  "Whenever two quantities differ in physical dimension, converting one to the other's units, adding, subtracting, taking remainders, ordering comparisons, item assignment, clipping, searching and in-place arithmetic raise ValueError; == and != instead report inequality for every element. The refusal leaves value, units and shape of every operand exactly as they were.",
  IP, "all pairs of unit exponents in -3..3 over two independent dimensions, all magnitudes and unit sizes, every listed operation and operand order (array, scalar, unit, plain number)",
  "Tests try a few incompatible pairs (m with s) and a few operators; a missed guard for one exponent combination or operand order is a silent wrong number.",
  ["quantity.py", "dimensionality.py", "unitquantity.py"],
  [("scaling of the other operand", "scale_other_units, wrap_comparison"), ("ufunc unit check", "_d_check_uniform"), ("conversion check", "get_conversion_factor")],
  ["Quantity.__add__ etc.", "Quantity.rescale", "Quantity.__setitem__"])

p("C03", "Unit exponents obey the algebra of products and powers",
  "Multiplying, dividing and raising unit products to powers adds, subtracts and multiplies the exponents unit by unit, units whose exponent becomes zero disappear, and other units are unaffected. The operand is never changed by the out-of-place forms, the in-place forms give the same result as the out-of-place ones, and adding or subtracting unit products requires them to be equal.",
  I, "all integer (and rational) exponents over up to three units, every operator and its in-place form",
  "Tests check single sample exponents; the algebra must hold for every exponent, in particular where exponents cancel.",
  ["dimensionality.py"], [("exponent arithmetic", "Dimensionality.__mul__/__truediv__/__pow__ and in-place forms")],
  ["Quantity.dimensionality"])

p("C04", "Units compare equal exactly when they are the same units",
  "Two unit products are equal if and only if they consist of the same units with the same exponents, regardless of the order in which they were built, and equal products have equal hashes. Inequality is the negation of equality.",
  I, "all pairs of unit products over three units with integer exponents -6..6 and with half-integer exponents",
  "Equality is decided through hashes; a collision for one pair of exponents silently suppresses a conversion, which no finite sample of tests excludes.",
  ["dimensionality.py", "unitquantity.py"], [("hash based equality", "Dimensionality.__hash__/__eq__"), ("unit hash", "UnitQuantity.__hash__")],
  ["Dimensionality.__eq__", "Quantity arithmetic that skips conversion when units are equal"])

p("C05", "Addition, subtraction and remainder convert the second operand",
  "For compatible operands, sum, difference and remainder equal the physically correct value in the units of the left operand (in the quantity's units when the other is a plain number), whichever mixture of arrays, scalars, unit objects and dimensionless numbers is used. Neither operand is modified, and a + b equals b + a physically.",
  I, "all magnitudes, unit sizes and exponents; operand kinds array / 0-d / unit / plain number; broadcasting shapes up to 4 elements",
  "Tests add a few sample values with one conversion factor; scaling errors that depend on operand kind, order or factor escape.",
  ["quantity.py", "unitquantity.py"], [("conversion of the other operand", "scale_other_units"), ("unit operands", "UnitQuantity.__radd__ etc.")])

p("C06", "Products, quotients and powers carry the right units and value",
  "Multiplying and dividing quantities, units and plain numbers in any order multiplies/divides the magnitudes and combines the units exactly; raising to a uniform power raises both; a non-uniform or dimensional exponent is refused with ValueError. Operands are unchanged.",
  I, "all magnitudes and unit sizes, exponents -3..3 and half-integers, operand kinds array / 0-d / unit / number, both orders",
  "Each test fixes the numbers and units; the claim quantifies over all of them and over every mixture of operand kinds.",
  ["quantity.py", "dimensionality.py", "unitquantity.py"], [("unit rules of multiply/divide/power", "p_dict"), ("wrapping of results", "Quantity.__array_wrap__"), ("uniform exponent check", "check_uniform")])

p("C07", "In-place operations and unit assignment are physically consistent",
  "In-place arithmetic leaves the quantity with the value and units of the corresponding out-of-place operation, and assigning new units converts the stored magnitudes so that the physical value is the same. A refused in-place operation or unit assignment changes nothing; a view of another quantity, or read-only data, never has its units changed.",
  IH, "all magnitudes, unit sizes and exponents; arrays, views and read-only arrays; sequences of two in-place operations",
  "A stale or half-applied unit change only shows for particular histories (view then modify, failed then continued).",
  ["quantity.py"], [("unit setter", "Quantity.units"), ("view protection", "protected_multiplication, protected_power")],
  ["Quantity.units", "Quantity.__iadd__ ... __ipow__"])

p("C08", "Comparisons agree with the physical order",
  "For compatible quantities <, <=, >, >=, == and != give, element by element, the result of comparing the values after conversion to common units, for all operand kinds including unit objects and NaN or infinite magnitudes; for equal units no rounding is introduced; ordering other quantities is refused. Comparisons return plain boolean results and never change their operands.",
  I, "all magnitudes (real; IEEE doubles including NaN, infinities and signed zeros for equal units), unit sizes, exponents; arrays, 0-d, units, plain numbers",
  "Sample comparisons never cover ties, NaN, or all unit ratios.",
  ["quantity.py"], [("comparison wrapper", "wrap_comparison, Quantity.__eq__/__ne__")])

p("C09", "Universal functions apply the unit rule of their mathematics",
  "Applied to quantities, numpy's element-wise functions return the numerical result on the magnitudes together with the units that mathematics prescribes (product, quotient, square, root, same units, dimensionless, radians/degrees), also when the result is written to an output quantity. Arguments whose units the function does not allow are refused with ValueError, and functions with no defined rule are refused rather than given wrong units.",
  IP, "every supported function, all magnitudes and exponents -4..4, operand kinds and order, with and without an output array",
  "Tests call each function with one or two unit choices; the refusal side and the output form are hardly touched.",
  ["dimensionality.py", "quantity.py"], [("unit rules", "p_dict"), ("result wrapping", "Quantity.__array_prepare__/__array_wrap__")])

p("C10", "Aggregations return the right value in the right units",
  "sum, mean, max, min, ptp, std, round, trace, cumsum, clip and their NaN-ignoring forms return the numerical aggregate of the magnitudes over the requested axis in the quantity's own units, var in the squared units, prod in the units raised to the number of multiplied elements, and arg-functions return plain indices. With an output quantity the same values and units are stored there; a bare array as output is refused where the result carries units; the quantity itself is unchanged.",
  I, "all magnitudes and exponents, every axis of shapes (3,), (2,2), (2,3); NaN-ignoring forms on IEEE doubles including NaN; with and without out",
  "Tests aggregate fixed small arrays in one unit, mostly without axis or out.",
  ["quantity.py", "umath.py"], [("aggregation methods", "Quantity.sum ... cumprod")])

p("C11", "Selecting and assigning elements respects units",
  "Indexing, slicing, masking, iterating and tolist yield quantities with the original's units and the selected magnitudes. Assigning (item assignment, put) converts the assigned quantity to the array's units, accepts plain numbers only for dimensionless arrays, changes exactly the selected elements, and is refused otherwise with no element changed.",
  I, "all magnitudes, unit sizes and exponents; integer, slice, tuple, mask and fancy keys on shapes (3,) and (2,2), including symbolic integer indices",
  "Each test uses a fixed index and fixed values; which elements change for every index and unit ratio is not sampled.",
  ["quantity.py"], [("element access", "Quantity.__getitem__/__setitem__/put/tolist/__iter__")])

p("C12", "Unit objects cannot be modified",
  "No arithmetic, in-place operator, conversion, item assignment or assignment of units changes the name, size, symbol or value of a unit object: an attempt to modify it raises and every later use of the unit sees the original. Results of arithmetic on units never share storage with the unit.",
  IH, "every in-place operator and mutator, all operand values, for fresh and built-in units, followed by re-use of the unit",
  "A corrupted unit silently rescales everything that follows; tests check only a few operators on one unit.",
  ["unitquantity.py"], [("read-only units", "UnitQuantity.__new__ / in-place operators")])

p("C13", "Simplification expresses the same value in the default units",
  "Simplifying a quantity gives the same physical value expressed only in the default unit of each base dimension, for every combination of default units selected. Choosing default units changes only this presentation and no conversion result; an unknown system or an incompatible unit is refused and leaves the default of that dimension as it was.",
  IC, "all magnitudes, unit sizes, exponents -3..3 over several dimensions, all default unit choices (system, individual, both)",
  "Tests simplify a few SI units under one or two settings; configurations and exponents multiply beyond that.",
  ["unitquantity.py", "quantity.py"], [("defaults", "IrreducibleUnit.set_default_unit, set_default_units"), ("simplified", "Quantity.simplified")],
  state=[dict(name="default unit per dimension", meaning="unit used by simplification", where="IrreducibleUnit._default_unit")])

p("C14", "User-defined and compound units convert by their definitions",
  "A unit defined as a multiple of other units (to any depth, including compound units built from a unit expression) behaves as exactly that multiple in every conversion, simplification and arithmetic operation, no matter what default units are active when it is defined or used. Defining it does not change the units it is defined from.",
  IC, "definition chains up to length 3 with arbitrary positive factors and exponents -3..3, compound units from generated expressions, default units changed before or after the definition",
  "The tests define one or two units with fixed factors.",
  ["unitquantity.py", "registry.py"], [("definition -> reference", "UnitQuantity.__new__"), ("compound units", "CompoundUnit.__new__")])

p("C15", "Unit strings are parsed as the products they denote",
  "A unit expression built from registered names, aliases and symbols with *, /, **, ^, '.', '·', parentheses, percent signs and numeric factors denotes exactly that product of unit powers, and behaves identically wherever a unit is accepted as a string. Text containing an unknown name is refused with an error.",
  IP, "all expressions from a grammar of bounded size with arbitrary integer exponents, all registered symbols of length 1-2 next to each other",
  "The space of expressions is combinatorial; tests parse fewer than twenty strings.",
  ["registry.py", "quantity.py"], [("string normalisation and evaluation", "UnitRegistry.__getitem__")])

p("C16", "Printed units read back as the same units",
  "The text form of any unit product can be parsed and yields the same units with the same exponents, for positive, negative, multi-digit and decimal exponents and for every built-in unit. A compound unit reads back as its expression, with the same physical size.",
  I, "integer exponents of up to three digits and decimal exponents, one to three units, every built-in unit symbol",
  "Tests format a few fixed units and never the round trip.",
  ["markup.py", "registry.py"], [("formatting", "format_units, format_exponent"), ("parsing", "UnitRegistry.__getitem__")])

p("C17", "Unit strings can never execute code",
  "Parsing a unit string evaluates arithmetic on registered units only: any call, attribute access, subscript, lambda, comprehension, assignment, comparison or other construct is refused with LookupError (or SyntaxError if not an expression) before anything is evaluated, and no built-in name is reachable.",
  IP, "every Python expression node type in every position of expression trees of bounded depth, symbolic choice of node kinds",
  "The tests try one or two attack strings; the claim is about every expression.",
  ["registry.py"], [("AST whitelist", "UnitRegistry.__Registry.__getitem__")])

p("C18", "A registered unit name keeps its meaning",
  "Once a name, symbol or alias is registered it always denotes the same unit: registering an equal unit again is harmless, registering a different one is refused with KeyError and leaves the original binding, and parsing never changes bindings. Every registered name yields a unit with unit magnitude.",
  IH, "sequences of up to three registrations with arbitrary unit sizes and name/symbol/alias roles, all built-in names",
  "Order-dependent overwriting needs histories of definitions that tests do not contain.",
  ["registry.py", "unitquantity.py"], [("registration", "UnitRegistry.__setitem__, UnitQuantity.__init__")],
  state=[dict(name="name -> unit", meaning="registered bindings", where="UnitRegistry")])

p("C19", "Uncertainties propagate by first-order error propagation",
  "For uncertain quantities, sum, difference, product, quotient, negation, absolute value and power give the exact value of the ordinary operation, and an uncertainty equal to the first-order propagation formula for independent operands, never negative, expressed in the units of the result. Mixing with certain quantities, units or plain numbers treats them as having zero uncertainty, in either operand order.",
  I, "all values, uncertainties >= 0, unit sizes, operand kinds and orders; powers -3..3 and 1/2",
  "Tests use a few positive values; signs, zero values, unit ratios and operand orders are quantified here.",
  ["uncertainquantity.py"], [("propagation", "UncertainQuantity.__add__ ... __pow__")])

p("C20", "Uncertainty follows its value through conversion and selection",
  "Converting, simplifying, unit assignment, copying, indexing, slicing and aggregation (sum, mean, max, min) of an uncertain quantity keep the uncertainty physically consistent with the value: same units, same shape, same relative uncertainty under conversion, and the quadrature formula for sums and means. The uncertainty of a result of a universal function has the shape and units of that result. Filling gives every element the value's uncertainty (zero if it has none) in the value's units. Setting an uncertainty converts its units and refuses a wrong shape or dimension, leaving the old one; a quantity given as uncertainty is not tied to it afterwards, and a change in place of the uncertainty that would take its units away from those of the value is refused and leaves it as it was.",
  I, "all values, uncertainties and unit sizes, shapes (), (3,), (2,2), every axis",
  "Tests convert a single fixed uncertain array.",
  ["uncertainquantity.py"], [("uncertainty bookkeeping", "UncertainQuantity.uncertainty/rescale/__getitem__/sum/mean/max/min")])

p("C21", "Copies and pickles are equal and independent",
  "Copying, deep-copying and pickling a quantity, uncertain quantity or unit yields an object of the same class with equal magnitudes, units, dtype, shape and uncertainty. Changing the copy of a quantity (values, units or uncertainty) never changes the original and vice versa; an unpickled unit is interchangeable with the original.",
  IH, "all magnitudes, exponents and uncertainties; shapes (), (3,), (2,2); mutation of either side afterwards; all pickle protocols",
  "Aliasing only shows in a history copy -> mutate -> observe the other; tests check equality only.",
  ["quantity.py", "uncertainquantity.py", "unitquantity.py"], [("state transfer", "__reduce__/__setstate__/__deepcopy__/copy")])

p("C22", "Mathematical functions convert their arguments first",
  "The package's own sin, cos, tan, inverse and hyperbolic functions, arctan2, hypot, cross, diff, ediff1d, gradient, trapz, unwrap, cumulative and product functions act on the physical value: angles are converted to radians and other arguments to dimensionless or common units first, and results carry the mathematically right units. Arguments of the wrong dimension are refused with ValueError.",
  I, "all magnitudes and unit sizes (functions uninterpreted), all exponents, shapes up to 4 elements",
  "Tests evaluate each function at one or two points in one unit.",
  ["umath.py"], [("function wrappers", "umath.*")])

p("C23", "Preferred units only change the unit, never the value",
  "Rescaling to preferred units converts to the first listed preferred unit of the same physical dimension with the same physical value, and with none listed is refused leaving the quantity unchanged. Units of other dimensions in the list, and the form in which the quantity's units are written, do not matter.",
  IC, "all magnitudes and unit sizes, exponents -3..3, all orderings of preference lists of up to three units",
  "Tests use one list and four conversions.",
  ["quantity.py"], [("preferred units", "Quantity.rescale_preferred")])

p("C24", "Built-in units have their standard sizes",
  "Every built-in unit, under each of its names, symbols and aliases, converts to SI base units with its standard defined factor and dimension, for any magnitude.",
  I, "every registered unit and all magnitudes; factors against an independent table of standard definitions",
  "The tests check a handful of the several hundred units.",
  ["units/*.py"], [("definitions", "quantities/units/*.py")])

p("C25", "Physical constants have their CODATA value and dimension",
  "Every exported physical constant behaves as the quantity given by the packaged CODATA table entry of that name: multiplying by it, simplifying and converting give the tabulated value in the tabulated units. Constants that are related by definition agree with each other within the table's precision.",
  I, "every exported constant and all magnitudes it is multiplied with",
  "The tests only compare five constants.",
  ["constants/*.py"], [("table and wiring", "quantities/constants/_codata.py, _utils._cd")])

p("C26", "Conversions keep the numeric type",
  "Converting floating-point or complex quantities to other units keeps their precision class (float32 stays float32, complex stays complex) unless a wider type is requested, which is honoured; reducing to base units never narrows it. Integer magnitudes are never truncated: the result is the exact physical value in a floating type. Arithmetic mixing units never narrows the operands' common type, and in-place operations keep the array's type.",
  I, "dtypes f4, f8, c8, c16, i4, i8, u1; all magnitudes and unit sizes, scalar and array",
  "A truncated integer conversion is a silent wrong value, and each dtype/operation pair would need its own tests.",
  ["quantity.py"], [("dtype handling", "Quantity.rescale, scale_other_units, Quantity.__setitem__")])

p("C27", "Constructing a quantity labels or converts exactly as asked",
  "Building a quantity from numbers, sequences or arrays and any form of units (unit object, string, unit product) yields those magnitudes in those units; building one from another quantity with units given converts, and without units keeps them. Units that are not a scalar of magnitude one, or of another type, are refused, and the source is never modified.",
  I, "all magnitudes, unit sizes and exponents; every input kind and unit form",
  "Tests cover few combinations of data kind and unit form.",
  ["quantity.py"], [("constructor", "Quantity.__new__, validate_dimensionality, validate_unit_quantity")])

p("C28", "Markup of units shows every exponent where it belongs",
  "The plain, unicode, LaTeX and HTML renderings of a unit product contain every unit exactly once, in the numerator or denominator according to its sign, with exactly its exponent (whole or decimal) typeset as exponent and omitted only for one. Turning unicode on or off changes only the rendering.",
  IC, "all integer exponents of up to three digits and decimal exponents over one to three units, unicode switch on/off, rendering options",
  "Tests render about ten fixed units.",
  ["markup.py", "dimensionality.py"], [("rendering", "format_units*, superscript")])

p("C29", "Wrapped functions see base units and return declared units",
  "A plain numerical function wrapped for quantities receives every quantity argument, positional or keyword, as its magnitude in base units, and each result is labelled with and converted to the declared units, so that the physical result does not depend on the units the arguments came in.",
  I, "all magnitudes and unit sizes, positional and keyword arguments, up to three results",
  "The tests wrap one solver function with fixed inputs.",
  ["decorators.py"], [("wrapper", "quantitizer")])

p("C30", "Rearranging elements keeps the elements and their units",
  "Reshaping, flattening, transposing, squeezing, flipping, taking, compressing, repeating, rolling, tiling, copying and sorting a quantity, by method or by the numpy function of that name, gives a quantity of exactly the selected magnitudes in the same units and data type. Where no copy is made, values written through the result reach the original and the result's units cannot be changed; where one is made, the two are independent. Real and imaginary parts carry the units, assigning them converts; filling gives every element the value in its units, and a view cannot be filled with other units.",
  IP, "all magnitudes, unit sizes and exponents -3..3; 37 rearranging forms on shapes up to 6 elements; float32, float64, complex",
  "Tests reshape or take one array; whether units survive each form, and whether a view stays a protected view, depends on numpy's class hooks for every one of them.",
  ["quantity.py"], [("class hook", "Quantity.__array_finalize__"), ("protected views", "Quantity.units, protected_multiplication"), ("squeeze, fill, real, imag", "Quantity.squeeze, Quantity.fill, Quantity.real, Quantity.imag")])

p("C31", "Printed quantities show their current magnitude, units and uncertainty",
  "The str, repr and format of a quantity or uncertain quantity show its current magnitudes in order (formatted as asked), its current units, and its current uncertainty in the same units, before and after every in-place change, in plain text and with unicode symbols. A unit shows its name, symbol and definition. Printing changes nothing.",
  IH, "all magnitudes and uncertainties, exponents -2..3 of up to three units, shapes up to 4 elements, both unicode settings, every built-in unit, each kind of in-place change",
  "Tests format two or three fixed quantities; a text remembered from before a change, or uncertainty shown in other units than the value, only shows for particular histories.",
  ["quantity.py", "uncertainquantity.py", "unitquantity.py", "markup.py"], [("text of quantities", "Quantity.__str__/__repr__/__format__"), ("text of uncertain quantities", "UncertainQuantity.__str__/__repr__"), ("text of units", "UnitQuantity.__str__/__repr__")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
