"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os

ROWS = []
S = "src/fastforward/"

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    anchors["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    ROWS.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

P("C01", "Quantize/dequantize puts each element on its own tile's nearest grid point",
  "Quantizing a tensor and dequantizing it gives, for every element, the nearest representable point (ties to even) of the grid defined by the bitwidth and by the scale and rounded offset of that element's own tile, clamped to the b-bit integer range. "
  "This holds for every granularity, bitwidth, offset, floating dtype, memory layout, storage dtype and entry point (functional, context, quantizer module, export mode); inputs and parameters are never modified and re-quantizing the result changes nothing. "
  "A storage dtype that cannot hold the b-bit range is refused instead of wrapping.",
  ["inputs", "configurations"],
  "for all shapes, granularities, bitwidths, offsets, dtypes, layouts and element values",
  "Tests sample a few random tensors with hand-picked granularities; a wrong parameter-to-tile association, an off-by-one clamp or a dtype that wraps only at one bitwidth needs the whole small grid.",
  ["quantization/_quantizer_impl.py", "quantization/affine/function.py", "quantization/affine/static.py", "quantization/affine/_autograd.py", "nn/linear_quantizer.py"],
  [("quantize/dequantize kernels", "quantization/_quantizer_impl.py:quantize_by_tile_impl"), ("affine function", "quantization/affine/function.py:AffineQuantizationFunction")],
  ["raw integer data, dequantized data and stored parameters of the returned tensor"])

P("C02", "Granularities partition tensors into tiles reversibly and unambiguously",
  "Every granularity splits a tensor into disjoint equal tiles that cover it; laying the tiles out as rows and back is the identity for every shape, tile and memory layout, and tiles that do not divide the shape are rejected. "
  "The granularity inferred from a (shape, tile) pair reproduces exactly that tile, and two granularities that compare equal tile every shape identically.",
  ["inputs", "configurations"], "for all shapes and all tile shapes",
  "Tests check a few hand-picked tiles; confusion of axes shows only for particular combinations of equal or unequal dimension sizes.",
  ["quantization/tiled_tensor.py", "quantization/granularity.py"],
  [("tiling", "quantization/tiled_tensor.py:tiles_to_rows"), ("granularities", "quantization/granularity.py")])

P("C03", "Gradients through fake quantization follow the straight-through rule",
  "For every input, back-propagating through quantize-then-dequantize gives the gradient of the clamp with rounding treated as identity: elements inside the representable range pass the gradient unchanged and clipped ones get zero, and each tile's scale and offset receive exactly the sum over that tile's own elements of the corresponding partial derivatives. "
  "Dequantization alone and quantize operations with dynamic parameters pass data gradients unchanged; supported view operations, scalar multiplication and fallbacks on quantized tensors propagate the same data gradient as on the dequantized tensor.",
  ["inputs", "configurations"], "for all shapes, granularities, bitwidths, offsets and positions relative to the clipping thresholds",
  "Tests compare a few random tensors with autograd; sign or reduction errors on one side of the clipping range or one tile layout are missed.",
  ["quantization/_quantizer_impl.py", "quantization/affine/_autograd.py", "quantization/ste.py", "quantization/_linear_quantized_ops.py", "quantized_tensor.py"],
  [("backward kernel", "quantization/_quantizer_impl.py:quant_dequant_by_tile_grad_impl"), ("autograd functions", "quantization/affine/_autograd.py")])

P("C04", "Parameters derived from a range cover that range exactly and finitely",
  "Scale and offset derived from any range are finite and usable, and quantizing with them reproduces every value of the range (hulled with zero where the scheme is symmetric) to within half a step, without an unnecessarily wide grid; a reported range equals the range that was set whenever the scheme can represent it. "
  "Dynamic quantization equals static quantization with the parameters of each tile's own minimum and maximum, and degenerate ranges (all zero, single value, one-sided, negative) never give NaN or infinite results.",
  ["inputs", "configurations"], "for all ranges over a value grid, per-tile combinations, bitwidths and symmetric/one-sided modes",
  "Tests use generic random ranges; degenerate ranges, one zero channel among others and one-sided decisions over several tiles are corner inputs.",
  ["quantization/affine/range.py", "quantization/affine/dynamic.py", "nn/linear_quantizer.py", "nn/dynamic_linear_quantizer.py", "quantization/_quantizer_impl.py"],
  [("range to parameters", "quantization/affine/range.py:parameters_for_range"), ("quantizer range property", "nn/linear_quantizer.py:LinearQuantizer.quantization_range"), ("dynamic kernel", "quantization/_quantizer_impl.py:quantize_dynamic_by_tile_impl")])

P("C05", "Operations kept in the quantized domain commute with dequantization",
  "Whenever an operation on quantized tensors (views, reshapes, transposes, indexing, slicing, concatenation, expansion, selection, scalar multiplication, cloning, moving, copying) returns a quantized result, dequantizing it equals applying the float operation to the dequantized inputs, and the stored parameters and integers are those of its own elements. "
  "Otherwise the operation raises or, where allowed, returns an ordinary tensor with the float result; operands are never altered.",
  ["inputs", "programs"], "for all small shapes, granularities, offsets and argument values of each operation, and all chains of two operations",
  "Tests try a handful of argument combinations per operation; negative axes, mixed offsets, negative scales and index kinds are combinatorial.",
  ["quantization/_linear_quantized_ops.py", "quantized_tensor.py", "dispatcher.py"],
  [("quantized kernels", "quantization/_linear_quantized_ops.py"), ("torch function hook", "quantized_tensor.py:QuantizedTensor.__torch_function__")])

P("C06", "Strict mode never dequantizes silently; non-strict equals the float result",
  "For every supported operator and every mix of quantized and float arguments: under strict quantization a call whose required operands are not all quantized, or that has no output quantizer, either runs a registered quantized kernel or raises an error, and never silently dequantizes; an accepted call returns the output quantizer applied to the float operator on the dequantized operands. "
  "With strict mode off the result equals the float operator on dequantized operands, passed through the output quantizer when one is given; the per-call setting wins over the global one.",
  ["inputs", "configurations", "programs"], "for all operators in the table x operand kinds x output quantizer x strict flag x call routes",
  "There are ~100 generated operators; tests sample some of them with one operand mix.",
  ["_gen/fallback.py", "_gen/operators.py", "quantized_tensor.py", "nn/functional", "flags.py"],
  [("generated fallbacks", "_gen/fallback.py"), ("torch function hook", "quantized_tensor.py")])

P("C07", "Global modes are restored after every nesting, reuse or exception",
  "After any well-nested history of setting, entering and leaving the strict, export, compile and fallback modes — by call, context manager, decorator or per-module attachment, including exceptions, re-entrant and shared modules, and several attachments on one module — the mode seen inside each scope is the one of the innermost active scope and on exit the previous value is back. "
  "Modes do not influence each other.",
  ["histories", "fault_sequences"], "for all histories of mode operations up to a depth, with an exception at any point",
  "Tests exercise one scope at a time without exceptions, nesting of the same module, or shared modules.",
  ["flags.py", "quantization/strict_quantization.py", "nn/functional/custom/sdpa.py"],
  [("flags", "flags.py"), ("module hooks", "quantization/strict_quantization.py:ModuleStrictQuantHandle")],
  state=[("global flags", "current modes", "flags.py:_FLAGS")])

P("C08", "Quantizer overrides stack, compose and come off in any order",
  "For any history of registering, invoking, and removing overrides on quantizers (in any order, twice, by handle, by scope, after the quantizer is copied or gone), a call runs exactly the overrides that are registered when it starts, newest first, each of them able to call through to the rest of the stack any number of times, and finally the quantizer itself. "
  "Removing all overrides restores the original behaviour, and removing or adding overrides on one quantizer or during a call never affects others or corrupts the call in progress.",
  ["histories"], "for all register/remove/call histories up to a depth and all override behaviours",
  "Tests cover one or two overrides that each call through once, removed in LIFO order.",
  ["forward_override.py", "nn/quantizer.py", "overrides.py"],
  [("override stack", "forward_override.py:apply_overrides"), ("quantizer call", "nn/quantizer.py:Quantizer")])

P("C09", "Disabling quantization is exact, scoped and reversible",
  "While quantization is disabled for a set of quantizers exactly those pass tensors through unchanged and every other quantizer keeps quantizing; after re-enabling, leaving the scope (normally or by exception) or nesting scopes in any order, every quantizer behaves as before with unchanged parameters. "
  "Operators called while quantization is disabled on their inputs do not fail for strictness, and the strict mode is back afterwards.",
  ["histories", "fault_sequences"], "for all attach/detach/enable/disable/enter/exit/raise histories over two models sharing a quantizer",
  "Tests use single scopes on a single model.",
  ["overrides.py", "forward_override.py", "flags.py"],
  [("disable override", "overrides.py:DisableQuantizationOverride"), ("scoped helpers", "overrides.py:disable_quantization")])

P("C10", "Dispatch picks the newest matching kernel of the best priority",
  "After any history of registering kernels (as decorators, hooks or scoped registrations, with any predicates and priorities), and unregistering them in any order, a lookup returns the most recently registered still-active kernel whose predicate accepts the arguments in the highest-priority class, and nothing otherwise. "
  "Leaving a scope removes exactly that registration even if an identical one is still active, and predicates combine like boolean logic.",
  ["histories", "configurations"], "for all register/enter/exit/dispatch histories up to a depth over two operators, three priorities and all predicate outcomes",
  "Tests register at most a few kernels and leave scopes in LIFO order.",
  ["dispatcher.py"], [("registry", "dispatcher.py:register"), ("lookup", "dispatcher.py:dispatch")])

P("C11", "Range estimation equals the estimator's definition over the whole history",
  "For every sequence of calibration batches and every granularity, running min-max gives the exact minimum and maximum over all batches and smoothed min-max gives the recurrence gamma*new+(1-gamma)*old per tile, each scope continuing from the range the quantizer has; only selected quantizers are affected. "
  "When the estimation scope ends, also by an exception or with setup failing half-way, no estimator stays attached, all quantizers have the parameters derived from the last range and the mode flags are as before.",
  ["histories", "fault_sequences"], "for all batch sequences up to a length, granularities, estimator settings and exception points",
  "Tests run one or two batches on one quantizer and never fail in the middle.",
  ["range_setting/common.py", "range_setting/minmax.py"],
  [("scope", "range_setting/common.py:estimate_ranges"), ("estimators", "range_setting/minmax.py")])

P("C12", "Error-minimising range search returns the best candidate on its grid",
  "For every tensor and granularity, the grid-search estimator picks for each tile a range whose accumulated quantization error is no larger than that of any other candidate of its search grid, the candidates span the data range, and every tile is decided by its own errors only, over all batches. "
  "Degenerate data (zeros, constants, outliers, one-sided) gives finite usable parameters.",
  ["inputs", "histories"], "for all small tensors over a value alphabet, batch sequences, bitwidths, symmetric modes and candidate counts",
  "Tests check that some reasonable range is found on random data.",
  ["range_setting/min_error.py"], [("grid search", "range_setting/min_error.py")])

P("C13", "Saved quantization state reloads to an identical quantized model",
  "Saving the quantization state of a model and loading it into a float copy of the model yields, for every mix of quantizer kinds, granularities, dtypes, initialised, uninitialised and absent quantizers, shared modules and module names, a model with the same quantizers, parameters and outputs. "
  "Saving changes nothing in the model, and states that do not fit are reported instead of being applied silently.",
  ["configurations", "histories"], "for all assignments of quantizer configurations to the quantizer slots of small models, and save/load histories",
  "Tests save one model with one quantizer configuration.",
  ["quantization/save_load.py", "serialization.py", "nn/quantizer.py"],
  [("save/load", "quantization/save_load.py"), ("yaml", "serialization.py")])

P("C14", "An interrupted save never leaves a mixed or falsely complete checkpoint",
  "If saving fails or the process stops at any write, rename or file creation, then loading from the target location afterwards either yields the complete previously saved state, the complete new state, or an error; it never yields a mixture or silently incomplete state. "
  "A later successful save to the same location always produces a state that loads as exactly what was saved.",
  ["crash_points", "fault_sequences"], "for every crash point (before/after/within each file operation) of save histories over an empty or populated target",
  "Tests never interrupt a save.",
  ["quantization/save_load.py"], [("save", "quantization/save_load.py")])

P("C15", "Quantizers and quantized tensors survive copying, pickling and state dicts",
  "Deep-copying, pickling, cloning, moving or reloading the state dict of quantizers, quantized modules and quantized tensors preserves configuration, parameters and behaviour, including uninitialised parameters and quantizers nested under any name, and copies are independent of the originals. "
  "Loading a state dict into an uninitialised quantizer makes it equal to the source quantizer; entries belonging to other modules never influence it.",
  ["histories", "configurations"], "for all operation sequences up to a depth over all quantizer configurations",
  "Tests check single round trips of a default quantizer.",
  ["nn/quantizer.py", "nn/linear_quantizer.py", "quantized_tensor.py", "nn/dynamic_linear_quantizer.py"],
  [("state dict hooks", "nn/quantizer.py:Quantizer"), ("tensor copying", "quantized_tensor.py:QuantizedTensor")])

P("C16", "Converting a model to quantized form keeps structure and float behaviour",
  "Converting any model built from supported modules keeps module names, parameters (same objects), buffers, hooks-independent attributes, sharing and training mode, and with no or disabled quantizers the converted model computes exactly what the float model computed for every module configuration. "
  "Unsupported modules are reported before anything is changed unless skipping is requested, and converting an already converted model changes nothing.",
  ["programs", "configurations"], "for all small module trees over the supported module types, their constructor options and sharing patterns",
  "Tests convert a few models with default options.",
  ["nn/quantized_module.py", "nn/linear.py", "nn/conv.py", "nn/embedding.py", "nn/activations.py", "nn/normalization.py", "nn/container.py"],
  [("conversion", "nn/quantized_module.py:quantize_model"), ("module map", "nn/quantized_module.py:quantized_module_map")])

P("C17", "Path queries select exactly the modules the pattern denotes",
  "For every module tree and every query — names, wildcards, multi-level wildcards, alternatives, regular expressions, class and tag fragments, negation and nested combinations, parsed or built programmatically — the search returns exactly the modules whose path matches the pattern, each once and with its full name, and set operations on results behave like sets. "
  "Printing a query and parsing it again denotes the same set, and malformed queries are rejected with an error.",
  ["inputs", "programs"], "for all module trees and all queries up to a small size",
  "Tests list expected results for about twenty queries.",
  ["mpath/_parser.py", "mpath/_search.py", "mpath/fragments.py", "mpath/selector.py", "mpath/__init__.py"],
  [("search", "mpath/_search.py"), ("selector algebra", "mpath/selector.py"), ("parser", "mpath/_parser.py")])

P("C18", "Quantizer initialisation follows the configured rules and their precedence",
  "Applying a quantization configuration initialises exactly the quantizers selected by its rules, each with the factory and arguments of the rule that takes precedence, and never touches other quantizers; the result depends only on the rules and their order. "
  "Overwriting policies (error, skip, overwrite) are honoured and quantizer metadata, tags and names stay attached.",
  ["configurations", "histories"], "for all lists of up to three rules over a small model and all overwrite policies",
  "Tests cover two overlapping rules.",
  ["quantization/quant_init.py", "quantization/quantizer_annotations.py", "nn/quantizer.py"],
  [("configuration", "quantization/quant_init.py:QuantizationConfig"), ("collections", "quantization/quant_init.py:QuantizerCollection")])

P("C19", "Freezing bakes in exactly the quantized weights and leaves nothing behind",
  "After freezing a model, each parameter that has an active quantizer equals its dequantized quantized value, such quantizers are removed (or kept, when asked), and parameters and quantizers not involved — activation quantizers included — are untouched; the frozen model computes the same outputs. "
  "After the freezing scope ends, also by exception, no override remains, and freezing twice equals freezing once.",
  ["configurations", "fault_sequences", "histories"], "for all assignments of quantizers to the slots of small models, option settings, and exception points",
  "Tests only use weight quantizers and one forward pass.",
  ["quantization/freeze.py"], [("freeze override", "quantization/freeze.py:freeze_parameters")])

P("C20", "Fusing weights snaps each weight once, or refuses on conflicting ties",
  "Fusing quantized weights replaces every weight that has an initialised weight quantizer by exactly its quantize-dequantize value, in place and in its own dtype, changes nothing else, and gives a model with unchanged outputs whether the quantizers are kept or replaced by stubs; fusing again is a no-op. "
  "When tied weights would be snapped to different grids the request is refused and the model is left exactly as it was.",
  ["configurations", "programs"], "for all assignments of quantizers to the slots of small models and all weight/quantizer sharing patterns",
  "Tests fuse single models with one quantizer setting and one tied pair.",
  ["quantization/fuse.py"], [("fusion", "quantization/fuse.py:fuse_qdq_weights")])

P("C21", "GPTQ returns weights on the quantizer's grid and touches nothing else",
  "For every supported layer, granularity, block size, ordering option and calibration set, the optimised weight lies exactly on the grid of the layer's weight quantizer, equals the reference column-by-column algorithm, and does not depend on the processing block size; calibration data, biases and other modules are unchanged. "
  "With uncorrelated inputs it reduces to plain rounding.",
  ["inputs", "configurations"], "for all small layers x granularities x options x calibration sets over a value alphabet",
  "Tests compare losses on a random layer.",
  ["quantization/gptq.py"], [("gptq", "quantization/gptq.py")])

P("C22", "Layer-wise execution of a graph equals running the model eagerly",
  "For every small computation graph — with shared inputs, multiple outputs, nested subgraphs, attribute and item access, constants and several input batches — compiling it to instructions, splitting it into subgraphs, collapsing nodes or running it through delegates computes exactly what direct evaluation computes, each node once per batch. "
  "Delegates observe, for every batch in order, exactly the inputs their node receives, intermediate values are released once no longer needed and never earlier, and malformed graphs (cycles, foreign references) are rejected.",
  ["programs", "inputs"], "for all graphs up to 4 nodes over a small alphabet of node kinds, all orderings of insertion and all region choices",
  "Tests execute a dozen hand-made graphs.",
  ["_orchestration/graph_module.py", "_orchestration/instruction_engine.py", "_orchestration/data_flow.py", "_orchestration/scheduler.py"],
  [("graph", "_orchestration/graph_module.py:GraphModule"), ("engine", "_orchestration/instruction_engine.py")])

P("C23", "Offloading moves values so that every node computes on its own device",
  "For every small graph and every placement of modules and storage, the generated program moves each input a node reads (including items or attributes of structured values) to the compute device before the node runs and back to storage afterwards, redundant-move elimination never removes a needed move, and results equal those without offloading.",
  ["programs", "configurations"], "for all graphs up to 4 nodes with multi-output nodes x device placements",
  "Only one device exists in the test environment.",
  ["_orchestration/instruction_engine.py"], [("offloading passes", "_orchestration/instruction_engine.py")])

P("C24", "Export pipeline stages run once, in dependency order, with the right inputs",
  "For every pipeline built and edited by registering, inserting and replacing stages and changing dependencies, running it executes every stage exactly once after all stages it depends on, passes each the outputs of its dependencies in declared order, and an edit changes only the edges it names. "
  "Cyclic, missing or duplicate stages are rejected before anything runs and leave the pipeline unchanged.",
  ["histories", "programs"], "for all edit histories up to a depth over pipelines of up to four stages",
  "Tests check a few edits on linear pipelines.",
  ["export/pipeline/core.py", "export/pipeline/orchestrator.py", "export/pipeline/registry.py"],
  [("pipeline", "export/pipeline/core.py"), ("orchestrator", "export/pipeline/orchestrator.py")])

P("C25", "Exported encodings and graphs compute what the quantized model computes",
  "For every set of quantization parameters the exported encoding (each supported schema, per-tensor, per-channel and block-wise) decodes to the same set of representable values and the same integer for every input as the model's own quantizer, with symmetric flags, bitwidth, axis and range fields consistent; an exported graph executed with its encodings (or as a QDQ graph) computes what the quantized model computes; the encodings of separately exported modules are those of the tensors they get and return. "
  "Parameters that the format cannot express are refused instead of approximated silently, and exporting leaves the model as it was except for storing weights on their grid.",
  ["inputs", "configurations"], "for all scale/offset/bitwidth/granularity combinations over a small alphabet",
  "Tests compare a few dictionaries with literals.",
  ["export/_export_schemas.py", "export/_export_types.py", "export/_lpbq.py", "export/stages/annotations.py"],
  [("schema handlers", "export/_export_schemas.py"), ("block-wise packing", "export/_lpbq.py")])

P("C26", "Block-packed weight files decode to the quantized weights",
  "Exporting a model to a block-packed (GGUF) file and decoding the bytes by the format definition yields, for every tensor, the integers of the model's own quantized weight and its scales (in half precision; the 8-bit code -128 is stored as -127), or the float values when the weight has no initialised quantizer, with rows in the order the target architecture expects. "
  "Names are mapped one-to-one, metadata and vocabulary match the configuration, quantizers and scales the format cannot represent are refused, and the model is not changed.",
  ["inputs", "configurations"], "for all integer codes, positions, scales, quantizer configurations, head layouts and float types",
  "Tests decode random blocks of one layout and one tiny model; a swapped nibble at some code, a permutation of scales without codes or a quantizer whose offset is dropped needs all configurations.",
  ["export/stages/gguf/_packing.py", "export/stages/gguf/_extract.py", "export/stages/gguf/_naming.py", "export/stages/gguf/_arch.py", "export/stages/gguf/_vocab.py", "export/stages/gguf/gguf_export_stages.py"],
  [("packing", "export/stages/gguf/_packing.py"), ("extraction", "export/stages/gguf/_extract.py"), ("row order", "export/stages/gguf/_arch.py"), ("writing", "export/stages/gguf/gguf_export_stages.py")])

P("C27", "Serialised objects reload as equal objects and are never confused",
  "Every object of a serialisable class - granularities, quantizers and user classes with any combination of own, inherited and mixed-in constructors - that is dumped to YAML reloads as an object of the same class constructed from the same arguments, "
  "for all nested values (strings that look like other types, special floats, dtypes, containers, other such objects) and with the sharing between objects; or dumping raises. Making a class serialisable changes nothing else about it, and documents or tags are never taken for another class.",
  ["inputs", "configurations"], "for all leaf values, places, sharing patterns, class definitions, construction calls, tags and loaders up to the stated size",
  "Tests cover one value per class shape; a constructor inherited from a mixin, an aliased argument or a string that reads as a tag needs the combinations.",
  ["serialization.py", "_import.py", "quantization/granularity.py", "nn/quantizer.py"], [("yaml", "serialization.py:yamlable"), ("argument recording", "serialization.py:_wrap"), ("loading", "serialization.py:_ff_obj_yaml_constructor")])

P("C28", "Operator schemas, their types and the operator table are consistent",
  "For every operator schema, binding any combination of positional and keyword arguments yields the same assignment as a Python function with that signature, or a rejection where Python rejects the call; schemas without a meaning are refused. "
  "Types are consistent: equality is an equivalence compatible with hashing and printing, unions are order-free, duplicate-free and flat, replacing a type replaces it at every depth, and printing and re-parsing a type gives an equal one in every process. "
  "The operator table returns the overloads of a function most recent first under every name and alias, and is unchanged by an addition that is refused.",
  ["inputs", "programs", "histories"], "for all type expressions and signatures up to a small size, all call shapes and all table histories up to a small depth",
  "Tests check a few literal signatures.",
  ["_quantops/symtypes.py", "_quantops/operator.py", "_quantops/optable.py"],
  [("types", "_quantops/symtypes.py"), ("operators", "_quantops/operator.py"), ("table", "_quantops/optable.py")])

P("C29", "Functions generated from operator schemas do what their schema says",
  "Every function generated from a schema has exactly the parameters and defaults of the schema, dequantizes exactly the quantized arguments before it calls the fallback, and applies the output quantizer if one is given. "
  "It rejects an unquantized argument or a missing output quantizer exactly under strict quantization, whether that is stated in the call or globally. "
  "Every shipped function, called with only the necessary arguments, computes what the torch function computes.",
  ["inputs", "programs", "configurations"], "for all schemas up to a small size and all shipped operators, all kinds of arguments, strictness settings and output quantizers",
  "Tests compare text fragments of the generator and call a handful of operators.",
  ["_quantops/generate.py", "_gen/fallback.py", "_gen/operators.py", "_quantops/quantized_operators.yaml"],
  [("generator", "_quantops/generate.py"), ("shipped functions", "_gen/fallback.py")])

P("C30", "Layer-wise optimisation runs the requested algorithm on the declared targets",
  "For every history of registrations and nested overrides, requesting an algorithm (or any functools.partial of it) runs the requested algorithm with the arguments of that partial, else as it was registered, exactly once on every declared target and with the declared data requirements; overrides end with their block, also after errors, and an optimisation leaves the registrations as they were. "
  "A target specification (types, instances, queries, selectors and nested sequences of them) resolves to exactly the modules of the model it describes, each once; invalid, empty, foreign, overlapping or unmatched targets are refused. "
  "The plan of a data flow executes exactly the nodes the data depends on, in dependency order, reads what arrives at or leaves the region, and its generator sets the model state for its block only.",
  ["histories", "configurations", "programs"], "for all histories of registrations, overrides and requests, target specifications and graphs up to the stated size",
  "Tests register one algorithm and look at the stored specification; arguments of a partial, nested overrides or flows on branching graphs need combinations.",
  ["_orchestration/registry.py", "_orchestration/scheduler.py", "_orchestration/data_flow.py", "orchestration.py"],
  [("registry", "_orchestration/registry.py"), ("flow plans", "_orchestration/scheduler.py:bind_flows"), ("generators", "_orchestration/data_flow.py"), ("entry point", "orchestration.py:layerwise_optimize")])

P("C31", "Automatically quantized code computes what the original code computes",
  "For every module, the automatically quantized module without quantizers returns, raises, stores and evaluates exactly what the original does for every input - for every statement, expression, call graph of methods and helper functions, and choice of names in the source - and the module, its class and its functions stay as they were. "
  "With quantizers that are exact it still computes the same; every operator with a quantized counterpart that the original executes is executed once, with an output quantizer of its own that belongs to the module, and its operands are quantized. "
  "Code that cannot be converted is left in its original form.",
  ["programs", "inputs"], "for all programs of the stated grammar, placed in every kind of function, on all branches",
  "Tests compare the text that is generated for a handful of programs; reordered side effects, reused quantized values after a change, or quantizers that nested calls share need combinations.",
  ["_autoquant/", "autoquant.py"],
  [("entry point", "_autoquant/autoquant.py"), ("syntax passes", "_autoquant/cst/passes.py"), ("data flow", "_autoquant/cst/quantizer_analysis/"), ("quantizer propagation", "_autoquant/convert.py")])

P("C32", "Quantization operators agree in every execution mode",
  "For every shape, tile, data type of data, scale, offset and output, and memory layout, the quantization operators have the same results - in value, shape, data type and device - whether they run eagerly, in a recorded graph that is replayed on other tensors, or compiled; on fake and meta tensors they report the shape, data type and device that they have in reality; they neither modify nor alias their arguments. "
  "For every history of switching compilation of quantization functions on and off, nested switches, calls, backward passes and parameter changes, quantizers return the results, gradients and scales of an eager quantizer, and a switch ends with its block.",
  ["inputs", "configurations", "histories"], "for all operator configurations of the stated grids in every execution mode, and all histories of switches, calls and parameter changes up to a depth",
  "Tests compare one compiled function on one input and never run the registered shape functions; the data type of one output, or a result that one compiled configuration leaves to the next, needs the grid of configurations.",
  ["quantization/_quantizer_impl.py", "quantization/affine/_autograd.py", "flags.py"],
  [("operators and shape functions", "quantization/_quantizer_impl.py"), ("dispatch to compiled functions", "quantization/affine/_autograd.py"), ("switch", "flags.py")])

P("C33", "Quantizers are annotated with exactly the operators next to them",
  "For every model and sample input, annotating operators tags each quantizer - stubs, initialised, uninitialised, disabled or overridden ones - with `after/<operator>` for the operator that computed what it quantizes, and `before/<operator>` for every operator that reads what it returns, and with no other operator - also if several quantizers or operators read the same tensor, an operator returns or updates its input, or has several results. "
  "Annotating again with another sample adds the tags of the other branch; searching by such a tag finds exactly these quantizers. The model, its overrides, the sample and the modes are as before, also if the model raises.",
  ["programs", "configurations"], "for all programs over tensors and quantizers up to a length, all kinds of quantizers, modes and branches",
  "The only test is one chain of operators; quantizers that share an input, or operators that return their input, need programs in which the order of evaluation differs.",
  ["quantization/quantizer_annotations.py"],
  [("tracing tensor", "quantization/quantizer_annotations.py"), ("tags", "nn/quantizer.py")])

P("C34", "Custom quantization functions do what their two functions do",
  "Making a quantization function from any quantize and dequantize function yields parameters that are exactly those of the two, with their defaults; it is refused if (and only if) shared parameters have different annotations or defaults, or a parameter cannot be given by name. Every call with the required parameters quantizes once with exactly the parameters of the quantize function and gives a tensor whose value is that of the dequantize function with its own; other calls are refused. "
  "For every history of cloning, detaching, copying, moving and changing parameters the tensor keeps its function, parameters and value, copies are independent, and the originals stay as they were. Operators on such tensors compute the float result with the gradients of the two functions, or raise under strict quantization.",
  ["programs", "histories"], "for all pairs of signatures of up to three parameters, all sets of arguments, and all histories of operations on the tensors up to a depth",
  "Tests make one function with one parameter each; defaults, order, and parameters of only one of the functions need pairs of signatures.",
  ["quantization/function.py", "quantized_tensor.py"],
  [("creation", "quantization/function.py"), ("tensors", "quantized_tensor.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in ROWS:
        f.write(json.dumps(r) + "\n")
print(len(ROWS))
