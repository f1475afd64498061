"""writes properties.jsonl (development helper; the statements live here)"""
import json
import os

IN, HI, CF, PR, SC, FA = "inputs", "histories", "configurations", "programs", "schedules", "fault_sequences"


def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe,
                        "hook_needed": hook}}


EX = ("The tests solve a few finished puzzles per type and only count that one answer comes back; they never look at which "
      "filling it is, and boards with several or no fillings, other sizes, other clue kinds and other clue mixes are not tried.")


def exact(id, kind, title, list_, extra, files, mech):
    return P(id, title,
             "For every well-formed %s puzzle board, the answers are exactly the fillings that the published rules of that "
             "puzzle type permit: every returned filling obeys every rule and agrees with every clue and mark on the board, "
             "and every permitted filling is found when enough answers are asked for (with the options described as speed-ups off).%s" % (kind, extra), [IN],
             "all boards (sizes, shapes, clue positions and values, unknown-value clues, room layouts, user marks) of the types: " + list_,
             EX, files, mech, ["answer links returned by the solve call, decoded"])


props = [
    exact("C01", "shading", "Shading puzzles: the answers are exactly the permitted fillings",
          "aqre, aquapelago, aquarium, box, canal, cave, cbanana, chocona, circlesquare, cocktail, context, coral, creek, dominion, "
          "fillpix, heyablock, heyawake, hinge, hitori, kurochute, kurodoko, kurotto, lightshadow, lits, lookair, mannequin, "
          "martini, mochikoro, mochinyoro, nonogram, norinori, norinuri, nothree, nuribou, nurikabe, nurimisaki, nuriuzu, "
          "paintarea, patchwork, shimaguni, snake, stostone, tapa, tasquare, tetrochain, tilepaint, usoone, yajikazu, yinyang",
          "", ["solver/*.py (category shade)", "noqx/rule/"],
          [("solve() of every shading solver", "solver/"), ("rule builders", "noqx/rule/")]),
    exact("C02", "loop or path", "Loop and path puzzles: the answers are exactly the permitted drawings",
          "anglers, balance, castle, country, detour, dotchi, doubleback, firefly, geradeweg, haisu, hashi, koburin, masyu, "
          "moonsun, myopia, nagare, nothing, numlin, onsen, pipelink, railpool, simpleloop, slitherlink, tapaloop, yajilin, yajilin_regions",
          "", ["solver/*.py (category loop)", "noqx/rule/loop.py", "noqx/rule/route.py"],
          [("solve() of every loop solver", "solver/"), ("loop rules", "noqx/rule/")]),
    exact("C03", "region division", "Region puzzles: the answers are exactly the permitted divisions",
          "araf, compass, fivecells, fourcells, heteromino, kramma, nawabari, ncells, pentominous, shikaku, squarejam, "
          "tatamibari, tentaisho, tetrominous, triplace, usotatami, voxas, yajitatami",
          "", ["solver/*.py (category region)", "noqx/rule/shape.py", "noqx/rule/reachable.py"],
          [("solve() of every region solver", "solver/"), ("region and shape rules", "noqx/rule/shape.py")]),
    exact("C04", "number placement", "Number puzzles: the answers are exactly the permitted fillings",
          "bosanowa, cojun, doppelblock, easyasabc, factors, fillomino, hanare, kakuro, kakuru, kazunori, kropki, meander, "
          "minarism, nanro, numrope, putteria, ripple, simplegako, skyscrapers, sudoku, sukoro, sukororoom, view",
          "", ["solver/*.py (category num)", "noqx/rule/common.py", "noqx/rule/neighbor.py"],
          [("solve() of every number solver", "solver/"), ("fill rules", "noqx/rule/common.py")]),
    exact("C05", "variety", "Variety puzzles: the answers are exactly the permitted fillings",
          "akari, battleship, binairo, fillmat, gokigen, hakoiri, juosan, magnets, mines, news, nondango, pentopia, shakashaka, "
          "starbattle, statuepark, symmarea, tents",
          "", ["solver/*.py (category var)", "noqx/rule/"],
          [("solve() of every variety solver", "solver/"), ("rule builders", "noqx/rule/")]),
    P("C06", "Puzzle options change the rules exactly as they say",
      "For every option a puzzle type offers (for example diagonal or anti-knight sudoku, LITSO, product cave, sheep and wolf or "
      "touch variants of slitherlink, visit-all links, number of stars, letters, mines or region size, shape sets) and every "
      "value it accepts, the answers are exactly the fillings permitted by the rules with that option in force. "
      "Options described as speed-ups never produce a filling that the rules forbid.", [IN, CF],
      "all boards of the option-bearing types x all option values and combinations",
      "One or two examples exist per option, with one answer counted; combinations, and the effect of an option on boards with "
      "several fillings, are not tested.",
      ["solver/", "noqx/manager.py", "main.py"], [("puzzle.param", "solver/*.py"), ("parameters", "solver/*.py")],
      ["answer links returned by the solve call, decoded"]),
    P("C07", "A user's own marks only narrow the answers down",
      "Adding to a board a mark that states a fact about the answer (a shaded or crossed-out cell, a drawn or crossed line, a "
      "drawn or crossed border, a written number or symbol), in the problem layer or in the answer layer, gives exactly those "
      "answers of the board without the mark that agree with it. In particular a mark copied from an answer never loses that "
      "answer, and every answer respects every mark.", [IN, HI],
      "all boards, all puzzle types that read the kind of mark, all marks and sequences of marks in either layer",
      "Tests only solve finished problem boards without player marks.",
      ["solver/", "noqx/puzzle/penpa.py"], [("surface/line/edge/text clauses at the end of solve()", "solver/*.py"),
       ("both layers are read", "noqx/puzzle/penpa.py:decode")], ["answer links with and without the mark"]),
    P("C08", "What is drawn is what is solved",
      "The answers to a board depend only on what a person sees in its playing area and clue margins: they are the same "
      "whatever empty margins surround the grid, whichever layer an element was drawn in, whether a number was stored as text "
      "or as a number, in whatever order elements were drawn, and whatever title, author or editor settings the link carries. "
      "Every element the puzzle reads (surface, text in any sub-position, symbol, border, line, half line, cross) is seen at "
      "exactly the cell, side or corner where it was drawn, on every board size.", [IN],
      "all boards, margins, sizes from one cell to the editor's maximum, element kinds and positions, link variants",
      "Each example has one fixed size, margin and storage form; the decoder is never checked element by element.",
      ["noqx/puzzle/penpa.py", "noqx/puzzle/__init__.py"], [("PenpaPuzzle.decode and unpack helpers", "noqx/puzzle/penpa.py")],
      ["decoded puzzle object; answer links"]),
    P("C09", "An answer link is the problem plus exactly the answer",
      "Every returned link opens as the same board: all editor settings and the whole problem layer are unchanged, character "
      "for character, and only the answer layer is extended, with the user's own marks kept. The answer layer shows every element of the answer once, "
      "at its own cell or side, never on a place where the problem already shows that element; and for every type that reads the kind of "
      "mark its answers are drawn with, an answer link can itself be solved again and gives back the answer it shows.", [IN],
      "all boards (including decorations and elements that the solver does not use), puzzle types and answers",
      "The tests count links; they do not open them.",
      ["noqx/puzzle/penpa.py", "noqx/manager.py"], [("PenpaPuzzle.encode and pack helpers", "noqx/puzzle/penpa.py"),
       ("store_solution", "noqx/manager.py"), ("refine", "solver/*.py")], ["answer links, decoded independently"]),
    P("C10", "At most ten answers, all different, and fewer than ten means all",
      "A solve call returns at most the configured number of answers (ten), no two of which show the same filling, and whenever "
      "it returns fewer it has returned every answer there is; a board with exactly one answer therefore gives exactly one "
      "link and a board with none gives an empty list.", [IN],
      "all boards of all puzzle types, with zero, one, a few, and more than ten answers",
      "Tests only use boards with one answer.",
      ["noqx/clingo.py", "noqx/manager.py", "solver/"], [("max_solutions_to_find", "noqx/clingo.py"), ("choice rules without hidden freedom", "solver/")],
      ["answer lists"]),
    P("C11", "A request's answers do not depend on earlier requests",
      "The set of answers to a request is a function of that request alone: it is the same in a fresh server and after any "
      "sequence of earlier requests for the same or other puzzle types, including refused, failing and timed-out ones, and "
      "however requests interleave in arrival; repeating a request gives the same answers.", [HI, SC],
      "all request histories over all puzzle types and options, including failures",
      "Tests run each example once in one fixed order and never compare with a fresh process.",
      ["noqx/manager.py", "noqx/clingo.py", "solver/", "main.py"], [("reset() at the start of solve()", "solver/*.py"),
       ("one solver object per type shared by all requests", "noqx/manager.py:modules")],
      ["answers after a history against answers in a fresh process"], None,
      [("modules", "solver objects that outlive requests", "noqx/manager.py"), ("Solver.program", "program text kept between requests", "noqx/manager.py")]),
    P("C12", "The HTTP interface answers every request properly",
      "Every request to the solve endpoint, whatever its body, gets exactly one JSON response and leaves the server working: 200 "
      "with a list of links, 400 with a readable reason when the board or the request values are refused, 504 when the time limit "
      "was exceeded, and 500 with a neutral message otherwise, never a traceback, a hang or a dropped connection; concurrent "
      "requests each get the answer to their own board.", [IN, HI, SC, FA],
      "all request bodies (valid, truncated, wrong types, unknown puzzle, unknown parameters, damaged links), concurrent clients",
      "Tests post a handful of well-formed requests and a few refused ones through a test client.",
      ["main.py", "noqx/clingo.py"], [("solver_api exception mapping", "main.py")], ["HTTP status, headers and body"]),
    P("C13", "The time limit is honoured and never misreported",
      "When the configured time limit passes before the solver's search is complete, the request ends soon afterwards with a time-out "
      "reply, and partial answers are never returned as if they were the complete list; when the search completes within "
      "the limit the answers are returned and no time-out is reported.", [CF, IN, SC],
      "all time limits, boards easier and harder than the limit, one or several threads",
      "One test with a zero limit; completeness of what is returned near the limit is not tested.",
      ["noqx/clingo.py", "main.py"], [("handle.wait / TimeoutError", "noqx/clingo.py")], ["replies under short limits"]),
    P("C14", "Boards that cannot be interpreted are refused with a reason",
      "A board carrying an element of a kind its puzzle type uses, in a place or form it cannot interpret (a clue at a border or corner or "
      "in small print or another text style where clues stand in cells, an arrow clue without arrow, a letter where only numbers are known, a "
      "symbol of the wrong kind or place, a second clue in a room, a necessary clue missing, an impossible grid size, a wrong option value) is "
      "refused with an explanatory message, and is never silently "
      "solved as a different puzzle or reported as an internal error; a well-formed board is never refused.", [IN],
      "all puzzle types x kinds and places of uninterpretable elements",
      "Five refusals are tested, for five puzzle types.",
      ["noqx/rule/helper.py", "solver/", "noqx/puzzle/penpa.py"], [("validate_direction, validate_type, fail_false", "noqx/rule/helper.py")],
      ["exceptions and HTTP replies"]),
    P("C15", "Turning or mirroring a board turns or mirrors its answers",
      "For puzzle types whose rules do not single out a direction, turning or mirroring a board together with all its clues gives "
      "exactly the turned or mirrored answers; for types with directional clues the same holds when the directions are turned "
      "along. This holds for boards of any size, including non-square ones and full-size published puzzles.", [IN],
      "all boards of all sizes, all eight symmetries of the rectangle that keep the puzzle type meaningful",
      "No test compares two boards with each other.",
      ["noqx/rule/", "solver/", "noqx/puzzle/penpa.py"], [("row/column handling in rules and solvers", "noqx/rule/")], ["answer links of a board and of its images"]),
    P("C16", "The browser build and the server give the same results",
      "For every board, puzzle type and option the deployed (in-browser) build produces the same rule program as the server and "
      "turns a solver model into the same link, and it reports a refused board with the same message; loading it does not need "
      "the server's packages.", [IN, CF], "all boards, puzzle types, options and models, valid or refused",
      "No test runs the deployment entry point.",
      ["main_deploy.py", "noqx/manager.py", "main.py"], [("prepare_puzzle/generate_program/store_solution wrappers", "main_deploy.py")],
      ["program text, links, messages from both builds"]),
    P("C17", "The deployment bundle is complete and building it is harmless",
      "Building the browser deployment yields a self-contained folder: every puzzle type, rule and page file is in it with "
      "unchanged content and is listed for loading, the metadata lists every puzzle type, and it starts without the "
      "repository or the server's packages. Building it, or starting the server, any number of times in any order "
      "leaves the source pages as they were and gives the same bundle.", [HI, CF, FA],
      "all sequences of deployment builds and server starts, including over leftovers of earlier or interrupted builds",
      "No test builds the deployment.",
      ["main.py", "penpa-edit/prepare_deployment.js", "main_deploy.py"], [("-D branch", "main.py"), ("ENABLE_DEPLOYMENT switch", "penpa-edit/prepare_deployment.js")],
      ["files of dist/page, working tree status"]),
    P("C18", "The puzzle list tells the truth about every puzzle type",
      "The metadata offered to the page lists every puzzle type exactly once with a name, a known category, examples and "
      "options; aliases are unambiguous; every example that is a board link opens as a board and has exactly one answer with "
      "its own options; every option that an example sets exists, its default is a legal value, "
      "and every value the page can choose for it is understood.", [CF, IN],
      "all puzzle types, examples, options and option values",
      "Tests count one answer per example; names, aliases, options, defaults and choices are not checked.",
      ["noqx/manager.py", "solver/", "penpa-edit/app.js"], [("list_solver_metadata", "noqx/manager.py"), ("class attributes", "solver/*.py")],
      ["metadata; solve results"]),
    P("C19", "Counting and neighbour rules mean what they say",
      "For every grid size, colour, target (equal, less, greater, at least and so on) and place, the rule builders for counting in rows, "
      "columns, areas, grids and among orthogonal, diagonal or surrounding neighbours, along an arrow, for filling in numbers and keeping them different, and for forbidding or requiring "
      "neighbouring colours admit exactly the colourings that satisfy the stated count or neighbour condition.", [IN, PR],
      "all grids up to the sizes that can be enumerated, all builder arguments, alone and in combination",
      "Rule builders are only exercised through finished example puzzles.",
      ["noqx/rule/common.py", "noqx/rule/neighbor.py", "noqx/rule/helper.py", "noqx/rule/variety.py"],
      [("count, area, unique_num, fill_num", "noqx/rule/common.py"), ("adjacent, count_adjacent, avoid_adjacent_color", "noqx/rule/neighbor.py")],
      ["models of the generated rules"]),
    P("C20", "Connectivity and reachability rules mean what they say",
      "For every grid size, colour and adjacency, the rule builders for connected colours, connected areas, regions grown from sources, "
      "reaching the border, excluded or limited sources, and counts of reachable cells (equal, less, greater) and of cells "
      "seen in a straight line admit exactly the colourings whose connectivity and counts are as stated.", [IN, PR],
      "all grids up to the sizes that can be enumerated, all builder arguments",
      "Rule builders are only exercised through finished example puzzles.",
      ["noqx/rule/reachable.py"], [("grid_color_connected, grid_src_color_connected, count_reachable_src and others", "noqx/rule/reachable.py")],
      ["models of the generated rules"]),
    P("C21", "Shape rules mean what they say",
      "For every grid size the rule builders for rectangles, forbidden rectangles, polyomino shapes in every turned and mirrored "
      "position, shape counts, regions without crossing borders, and division of the grid into shapes admit exactly the colourings or divisions with the stated shapes, "
      "and the table of named polyominoes holds every tetromino and pentomino once under its usual name.", [IN, PR],
      "all grids up to the sizes that can be enumerated, all shapes and builder arguments",
      "Rule builders are only exercised through finished example puzzles.",
      ["noqx/rule/shape.py", "noqx/rule/variety.py"], [("all_rect, avoid_rect, general_shape, all_shapes, count_shape, OMINOES", "noqx/rule/shape.py")],
      ["models of the generated rules"]),
    P("C22", "Loop and path rules mean what they say",
      "For every grid size the rule builders for loops and paths (one loop, several loops, directed loops, paths between marked cells, "
      "straightness, turns, inside and outside, lengths of segments) admit exactly the line drawings with the stated property.", [IN, PR],
      "all grids up to the sizes that can be enumerated, all builder arguments",
      "Rule builders are only exercised through finished example puzzles.",
      ["noqx/rule/loop.py", "noqx/rule/neighbor.py", "noqx/rule/reachable.py"], [("single_loop, directed_loop, loop_straight, loop_turning, separate_item_from_loop and others", "noqx/rule/loop.py")],
      ["models of the generated rules"]),
    P("C23", "Rooms are exactly the areas enclosed by drawn borders",
      "For every set of drawn borders the rooms used for solving are the partition of the grid into the areas that the borders "
      "enclose: every cell is in exactly one room, two cells share a room exactly when one can walk between them without crossing a "
      "border, crosses and outer frames make no difference, and each clue belongs to the room it is drawn in.", [IN],
      "all border sets (including dangling borders, full frames, cross marks, single-cell rooms) on all grid sizes",
      "Only the layouts of the example puzzles are used.",
      ["noqx/rule/helper.py", "noqx/puzzle/penpa.py"], [("full_bfs", "noqx/rule/helper.py"), ("edge unpacking", "noqx/puzzle/penpa.py")],
      ["rooms computed for a decoded board; answers of room puzzles"]),
    P("C24", "The page sends the drawn puzzle and shows what the server said",
      "The solver page sends the selected puzzle type, the current board and the chosen options, unchanged, to the solver; it then shows the "
      "answers it got, each reachable by stepping through them, tells apart no answer, one answer and several, shows the server's "
      "message on refusal or time-out, and is ready for another request after every outcome; after Reset, the "
      "reply to a request that was given up is no longer shown.", [HI, FA, IN],
      "all sequences of page actions and server outcomes (answers, none, refusal, time-out, server error, network failure)",
      "There are no tests of the page.",
      ["penpa-edit/app.js", "penpa-edit/prepare_deployment.js"], [("solve button handler, solution list navigation", "penpa-edit/app.js")],
      ["requests sent, dialogs shown, board loaded, in a scripted page"]),
]

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
