#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property is added)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=", ".join(files))])))

H, I, PR, C = "histories", "inputs", "programs", "configurations"

p("C01", "The displayed tree is the template evaluated on the latest value",
  "After every update the displayed tree (tags, texts, attributes, order of siblings) is the template evaluated on the value just given: text and attribute bindings show the value at their path, presence bindings add or drop an attribute, visibility conditions show or hide an element, a repeat shows one item per array element up to its capacity, and aliases and linked templates name the parts they were given. Missing, null and wrongly typed data are displayed like the empty value, and data that was present in earlier values and is missing now is not displayed anymore.",
  [PR, H], "any template built of these features and any sequence of values given to it",
  "Tests bind a few fixed templates and one or two values each; the defects are in the difference between two successive values (list shrinks, object becomes null, alias or nested repeat changes) for nestings that nobody wrote down.",
  ["src/view_model.rs", "src/rendering.rs", "src/view.rs", "src/value.rs"],
  "ViewModel::bind computes reactions from the difference of values; View::update_tree applies them; Renderer creates bindings")
p("C02", "What is displayed does not depend on the history of a view",
  "After any sequence of values, viewports and mouse or keyboard events, once the pointer is away, buttons are released and nothing has focus, the tree, texts, attributes, computed styles, layout styles, positions, sizes, scroll ranges and clipping equal those of a new view of the same document that was only ever given the last value and viewport.",
  [H, PR], "any document, stylesheet and sequence of values, viewport sizes and input events",
  "A test looks at one state after one or two updates; leaks of earlier states (styles not reset, cached layout, stale text measure, wrong order after re-show) need particular pairs of states.",
  ["src/view.rs", "src/view_model.rs", "src/styles/mod.rs", "src/styles/initial.rs"],
  "View::update, update_tree, apply_styles and the incremental layout of Taffy")
p("C03", "Rules apply to the elements their selectors match, later ones win",
  "On every update a rule applies to exactly the elements that one of its selectors (type, class, id, universal, attribute operators = ~= |= ^= $= *=, compounds, child and next-sibling combinators, pseudo-classes, lists) matches in the displayed tree with its current attributes; of all rules that apply a property takes the value of the last declaration in source order, and inline style wins over all of them. There is no specificity.",
  [PR, H], "any tree, any list of rules over these selectors, and any sequence of values that adds, hides or changes elements, classes, ids and attributes",
  "Tests match single selectors against single elements; precomputed static and dynamic matches, sibling and parent relations and their change over updates are beyond them.",
  ["src/css/matching.rs", "src/view.rs", "src/styles/mod.rs"],
  "calculate_elements_stylesheet splits static and dynamic matches; Cascade::apply_styles; match_style")
p("C04", "Declarations in effect determine the computed style of an element",
  "The computed value of every longhand property of an element is that of the last declaration in effect for it (rules in source order, then inline style), where shorthands set their longhands, comma separated lists of backgrounds set one layer each, variables are replaced with the values of their definitions, and lengths resolve against the font size of the parent (em), the root size of 16px (rem) or the viewport (vw, vh, vmin, vmax). A property without a declaration in effect has its initial or inherited value, also when a declaration was in effect on an earlier update.",
  [I, H], "any declarations of the supported properties, units, colours, shorthands and variables, in rules that come and go",
  "Tests check single declarations; combinations of order, shorthands, units, variables and coming and going rules are unbounded.",
  ["src/styles/apply.rs", "src/styles/compute_style.rs", "src/styles/initial.rs", "src/styles/default.rs", "src/css/reader.rs", "src/css/model.rs"],
  "apply_shorthand, compute_* and the per-update reset to initial values")
p("C05", "Inherited properties come from the displayed parent, others do not",
  "An element without a declaration in effect for an inherited property (colour, font size, weight, family and style, visibility, pointer events, variables) has the value of its displayed parent after the same update, down to texts and pictures; relative font sizes resolve against the parent. Other properties are never taken from the parent.",
  [PR, H], "any tree and any assignment of declarations to its elements that changes from update to update",
  "Tests look at one parent and one child; chains of inheritance with values that come and go do not occur in them.",
  ["src/styles/inherit.rs", "src/styles/mod.rs", "src/view.rs"],
  "inherit() before the cascade of each element, variables handed down in apply_styles")
p("C06", "HTML is read as written, however it is formatted",
  "The elements, attributes, texts and order of a parsed document are those of its source, and the same document written with other quotes, whitespace inside of tags, indentation between tags, comments, void or self-closing notation gives the same displayed tree. A line break inside of a text together with the indentation after it reads as one space, and as nothing at the end of the last content of an element. The translator is given every literal span of the texts, once and unchanged, and neither bindings nor attributes.",
  [PR, I], "any document of the supported syntax and any formatting of it",
  "Tests parse a handful of fixed snippets; most pairs of a construct and a formatting never meet.",
  ["src/html/html.pest", "src/html/reader.rs", "src/rendering.rs"],
  "read_html and the Renderer's traversal")
p("C07", "No input crashes or hangs the library",
  "Creating a view of any HTML and CSS text, and updating it with any JSON value, time, viewport and input events, returns a result or an error in a time bounded by what the document asks for: it neither panics, aborts, overflows the stack nor loops forever.",
  [I, H], "any bytes of HTML and CSS (valid, mutated and arbitrary), any values, any events",
  "Tests use well formed inputs; the offending ones are by nature those nobody thought of.",
  ["src/html/reader.rs", "src/css/reader.rs", "src/view.rs", "src/animation.rs", "src/styles/mod.rs", "src/view_model.rs"],
  "all the readers and the update loop")
p("C08", "Positions, clipping, opacity and scrolling compose down the tree",
  "The absolute position of an element is that of its parent minus the parent's scroll offset plus its own offset in the layout of the same styles; its clipping is the box of the nearest ancestor whose content overflows it (none without such an ancestor), its opacity is the product of its own and the opacities above it, and its size and offset are those of a layout of blocks and flex boxes computed from the current styles and measured texts only. An element scrolls only when its content overflows, its scroll ranges are the overflow of the content in each direction, and offsets stay between zero and the range.",
  [PR, H], "any tree, styles of boxes, overflow and opacity, and history of updates",
  "Tests check the layout of fixed pages of two or three elements.",
  ["src/view.rs", "src/styles/scrolling.rs", "src/element.rs"],
  "compute_final_positions_and_clipping, Scrolling::ensure, measure_text")
p("C09", "Hover follows the pointer: enter, move and leave events and :hover",
  "After every update exactly the displayed visible elements that accept pointer events and whose box contains the pointer are hovered, wherever they moved under a pointer that rests; an update without a pointer event counts as one move at the last position. Of each move, elements that stop being hovered get onmouseleave first, then each hovered element gets onmouseenter if it was not hovered before, followed by onmousemove, each once, from the deepest (last in document order) to the outermost. Rules with :hover apply to the hovered elements from the next update on. Events report the position of the pointer and the geometry and state of their element.",
  [H, PR], "any tree, styles and sequence of pointer moves and updates",
  "Tests move the pointer once over one or two elements.",
  ["src/view_model.rs", "src/css/matching.rs", "src/view.rs"],
  "handle_output, hovered elements of the frame, element state")
p("C10", "Clicks, active state, focus and keys reach the right elements in order",
  "A click is reported for exactly the elements on which the left button went down and up again (oncontextmenu for the right button on release), from the deepest, each after its onmouseup; :active lasts from press to release of a button; a press moves focus to the pressed element that handles oninput, with onblur of the previous one and onfocus of the new one, focus is kept by presses inside of the focused element and lost by a press elsewhere; keys and characters are reported to the focused element only. Styles show these states from the next update on.",
  [H, PR], "any tree with listeners and any sequence of pointer, button and key events",
  "Tests press one button over one element.",
  ["src/view_model.rs", "src/input.rs"], "handle_output: button and key events")
p("C11", "Event messages carry the arguments written in the handler",
  "Every reported event yields one message built of the handler's words: a single name becomes a string, a name with arguments an object of the name and its argument or list of arguments, where bindings are replaced with the latest value at their path, event data with the event's data, and pipes are applied in order.",
  [PR, H], "any handler, values and events",
  "Tests use a few handlers with one argument.",
  ["src/view_model.rs", "src/html/reader.rs", "src/rendering.rs"], "handlers, MessageArgs and fire")
p("C12", "Drag and drop events form complete gestures",
  "Pressing the left button on a draggable element reports ondragstart and starts one drag; while it lasts, elements report ondragenter, ondragover and ondragleave next to their mouse events, and releasing the button ends it with ondrop on the deepest drop target under the pointer, if any, and exactly one ondragend on the source, wherever the button is released; there is no click on release of a drag.",
  [H, PR], "any tree with draggable elements and drop targets and any sequence of pointer events",
  "No test has a sequence of more than a few events.",
  ["src/view_model.rs"], "handle_output: drag context")
p("C13", "Animations are sampled by elapsed time, not by frames",
  "While an animation runs, the animated properties are those of the keyframes at the whole percent of the time elapsed since it began (after its delay, in cycles of its duration, up to its iteration count, not counting the time while it is paused), interpolated linearly between the neighbouring keyframes that specify the property (values of the same kind; others switch in the middle), whatever the sequence of frame times that adds up to it; a missing first or last keyframe takes the value of the styles; the last frame is held afterwards; and it is given up when the animation is not specified anymore.",
  [I, H], "any keyframes, animation settings and sequences of frame times",
  "Tests sample a few fixed times of one animation.",
  ["src/animation.rs", "src/styles/mod.rs", "src/styles/compute_animation_tracks.rs"], "Animator, tracks")
p("C14", "Transitions go from the shown value to the new one and end there",
  "When a specified property listed in a transition changes from one specified value to another, the shown value goes linearly from what was shown to the new value over the given duration after the given delay, stays between both and ends exactly at the new value, beginning with the update after the change; other properties change at once. A new change in the middle starts from the value shown then.",
  [I, H], "any transitions, values and sequences of changes and frame times",
  "Tests follow one change of one property.",
  ["src/animation.rs", "src/styles/mod.rs"], "Transition, apply_styles of Cascade")
p("C15", "Views are deterministic and events may be split over updates",
  "Two views of the same document given the same updates have the same tree, styles, geometry and outputs, whatever else was updated in between; and giving a sequence of events in one update or split over several updates of the same total time produces the same messages in the same order (apart from repeated moves) and the same final state, when styles of the page do not depend on the pointer.",
  [H], "any document and any sequence of updates and any way to split its events",
  "Tests run one view with one sequence.",
  ["src/view_model.rs", "src/view.rs"], "handle_output and iteration over hash maps")
p("C16", "Values are coerced by fixed rules and pipes are applied in order",
  "Text shows a number, boolean or string in its JSON notation without quotes, nothing for null, [array] and {object} for arrays and objects; visibility and presence bindings take null, false, zero, the empty string and the empty array as false and anything else as true; pipes are applied from left to right on the value in every place where a binding may have them, and unknown pipes have no effect.",
  [I, PR], "any JSON value and any chain of pipes",
  "Tests sample a few values.",
  ["src/value.rs", "src/view_model.rs"], "eval_string, eval_boolean, eval_array, transformers")
p("C17", "Templates, aliases and repeats equal their expansion written by hand",
  "A document with linked templates, aliases and repeats displays the same tree, styles and geometry and produces the same messages as the document where every link is replaced with the body of the template, every alias with its path and every repeat with its items written out.",
  [PR, H], "any document with these features and any history of values and events",
  "Tests check single features with fixed data.",
  ["src/rendering.rs", "src/view_model.rs"], "Renderer scopes and bindings")
p("C18", "Elements are found by their current id",
  "Looking up an id returns a displayed or hidden element whose id attribute has this value now (any of them if there are several), and nothing if no element has it, after any sequence of updates that change bound ids.",
  [H, PR], "any document with static and bound ids and any history of values",
  "Tests look up one static id.",
  ["src/view.rs", "src/rendering.rs"], "identified map")
p("C19", "Captured input and pointer image reflect what is under the pointer",
  "After every update input is reported as captured exactly when an element is hovered, pressed, dragged or has focus, and the pointer image is that of the last hovered element in document order which specifies one, the default otherwise.",
  [H, PR], "any tree and any sequence of events",
  "Tests do not look at it beyond one element.",
  ["src/view_model.rs", "src/output.rs"], "handle_output")
p("C20", "Stylesheet formatting and inert parts have no effect",
  "Writing a stylesheet with other whitespace, comments, quotes or notation of the same values, or adding rules that match nothing, unknown properties, unsupported values of properties that are not specified otherwise and unused variables and keyframes changes nothing in what is displayed.",
  [I, PR], "any stylesheet, formatting and inert additions",
  "Tests parse fixed snippets in one formatting each.",
  ["src/css/css.pest", "src/css/reader.rs", "src/styles/mod.rs"], "read_css")

props = {x["id"]: x for x in P}
with open(f"{here}/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
built = sorted(x[:-3].upper() for x in os.listdir(f"{here}/harness/src/props") if x.startswith("c"))
TECH = json.load(open(f"{here}/tools/technique.json"))
checks = []
for id in built:
    t = TECH[id]
    checks.append(dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
                       technique=t[0], level="exploration", level_note=t[1]))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks,
         not_applicable=[dict(property=x["id"], reason="check not built yet") for x in P if x["id"] not in built])
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
