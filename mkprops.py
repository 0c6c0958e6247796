#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
M = "MahjongAI/"
AG = [M + "agents/transformer.py", M + "agents/transformer_conv.py", M + "agents/transformer_conv_large.py", M + "agents/transformer_conv_ordered.py"]

p("C01", "Tenhou meld codes decode to exactly the call they stand for",
  "For every 16-bit meld code that Tenhou can emit, exactly one of chi, pon, added kan, open kan and concealed kan is reported, and the relative seat called from, the tiles that left the caller's hand and the tile taken from the other player are exactly those the code stands for. The reported suit, number, position of the taken tile and red-five flag agree with those tiles.",
  ["inputs"], "All 65536 codes are partitioned by an independent encoder into the codes Tenhou emits (every chi, pon, added, open and concealed kan for every tile, every position, every copy, every source seat) and the rest; the claim is for every emitted code.",
  "The tests build 17 codes with the constructors and compare numbers; they decode no code, and reach 5 of the tile kinds.",
  [M + "draw.py"], [("decoders of each meld family", M + "draw.py Naki.pattern_*"), ("classification bits", M + "draw.py Naki.is_*")],
  ["classification predicates, source seat and exposed/acquired tiles of a decoded meld"])

p("C02", "One canonical code per call: equal exactly for interchangeable melds",
  "Two melds get the same canonical code exactly when they are the same call (same kind, same tiles up to swapping copies of identical tiles with red fives distinguished, the same tile taken from the same seat); the meld built from a description of a call has the canonical code of every Tenhou code for that call. Which physical copies were used never matters.",
  ["inputs"], "Every pair of Tenhou-emittable codes and every argument tuple of every meld constructor.",
  "Recorded plays are matched to offered plays through this identity, so one collision or split silently mislabels training data; the tests compare 17 hand-picked numbers.",
  [M + "draw.py"], [("cleaning of raw codes", M + "draw.py Naki._clean*"), ("constructors", M + "draw.py Naki.from_*_info")],
  ["canonical code attribute of melds"])

p("C03", "Call actions and network output slots correspond one to one",
  "Every call that a player can choose maps to an output slot inside the head's range and outside the slots for pass, win and riichi. Two calls that the same player could choose between at one decision never share a slot, calls of different families or different tile kinds never share a slot, and a call's slot does not depend on which identical copies are used.",
  ["inputs"], "All Tenhou-emittable codes and all constructible calls: own-turn slots 3-70, reaction slots 2-153.",
  "A colliding slot is an unlearnable action that nothing reports; no test evaluates a slot index.",
  [M + "draw.py"], [("own-turn slot", M + "draw.py Naki.get_during_turn_filter_idx"), ("reaction slot", M + "draw.py Naki.get_post_turn_filter_idx")],
  ["slot index of a meld"])

p("C04", "History tokens identify the events of the round, in order",
  "For every supported game the token history of a round is exactly one token per discard, call, accepted riichi and dora reveal, in the order in which they happened. Tokens are non-zero (zero is padding), fit the field widths the model decodes, and two events get the same token only if they agree in kind, seat, tile kind or call, and drawn-or-from-hand flag.",
  ["inputs", "histories"], "Every event alphabet symbol (seat x tile x flag, seat x call, seat, tile), and every game history explored by the bounded game search.",
  "Histories are the model's only memory; tests encode eight discards and never a whole round.",
  [M + "process_xml.py"], [("token encoders", M + "process_xml.py discard2idx, naki2idx, reach2idx, new_dora2idx"), ("append points", M + "process_xml.py process")],
  ["second result of processing a log"])

p("C05", "Chi, pon and open-kan offers after a discard are exactly the legal ones",
  "After every discard, the calls offered to each other player are exactly the legal chi (only the next player), pon and open kan given the tiles in that player's concealed hand, with one offer for each choice between using a red five or a plain five. No call is offered to a player who has declared riichi, nor on the last discard of the wall, and no open kan once four kans have been made.",
  ["inputs", "histories"], "All discarded tiles x callers x hands over the neighbouring tile counts (0-4 copies with and without the red five), and all game histories of the bounded game search.",
  "Each tile shape and seat has its own branch; no test calls the offer code.",
  [M + "decision.py", M + "process_xml.py"], [("offer branches per tile number", M + "decision.py decision_mask"), ("collection at a discard", M + "process_xml.py discard event")],
  ["decisions attached to the decision point after a discard"])

p("C06", "Own-turn riichi and kan offers are exactly the legal ones",
  "At every draw, a concealed kan is offered exactly for the tile kinds of which the player holds four, and an added kan exactly for the open pons whose fourth tile is in hand, with the variant saying where a red five sits, and neither when no replacement tile can be drawn (an exhausted wall, or four kans made). Riichi is offered exactly when the hand is concealed, tenpai or complete, not yet declared, the player has 1000 points and at least four tiles are left to draw.",
  ["histories"], "All game histories of the bounded game search over the hand-crafted deals (all seats, rounds, walls), at each draw.",
  "Needs multi-step histories (pon, then the fourth tile; riichi, then quads; exhausted walls); no test reaches an own-turn decision.",
  [M + "process_xml.py"], [("draw event", M + "process_xml.py process, T/U/V/W branch")],
  ["decisions attached to the decision point after a draw"])

p("C07", "Win offers are exactly the legal wins",
  "A self-drawn win is offered at a draw, and a ron after a discard or an added kan, exactly to the players whose complete hand has a yaku under Tenhou rules in that situation: seat and round winds, riichi, one-shot, first-turn, last-tile, replacement-tile and robbed-kan yaku count, dora alone do not. Ron is never offered to a player in furiten through own discards of any wait, a ron passed in the same go-around, or a ron passed since riichi.",
  ["histories", "inputs"], "All game histories of the bounded game search, which includes for each situational yaku a deal in which it is the only yaku (robbing a concealed kan is outside the claim).",
  "Each situational yaku depends on the whole history of the round and on the seat; no test evaluates a win.",
  [M + "process_xml.py", M + "utils/agari.py"], [("win evaluation", M + "utils/agari.py evaluate_ron, evaluate_tsumo"), ("situation flags", M + "process_xml.py process")],
  ["win decisions at decision points"])

p("C08", "Exactly the actions taken in the log are marked as taken",
  "At each decision point, an offered action is marked as taken exactly when the log shows that this player took that very action there: riichi, each kan, each call variant by the caller, and each win including double and triple ron. Everything else, in particular the same call offered to another player, stays unmarked, and every legal action taken in the log has its mark.",
  ["histories"], "All game histories of the bounded game search.",
  "These marks are the supervised labels; wrong ones are silent. No test inspects a mark.",
  [M + "process_xml.py"], [("marking on riichi, call and win events", M + "process_xml.py process")],
  ["executed flag of each decision"])

p("C09", "Tile bookkeeping conserves every tile",
  "At every decision point, the acting player's hand, the tiles nobody has seen yet, the tiles unseen from the player's point of view, the discards of each player and the open melds are exactly what the deal and the events so far imply, with red fives tracked both as fives and as red fives. The number of tiles left to draw starts at 70 and falls by one per draw, replacement draws included, and by nothing else.",
  ["histories"], "All game histories of the bounded game search, at each decision point.",
  "A drift needs particular sequences (kan, red dora indicator, red call); tests never compare a state.",
  [M + "process_xml.py", M + "utils/constants.py"], [("tile counters", M + "process_xml.py process"), ("tile to index table", M + "utils/constants.py TILE2IDX")],
  ["state attached to decision points"],
  [{"name": "hand/remaining/pov/discards/melds", "meaning": "tile bookkeeping of the round", "where": M + "state.py"}])

p("C10", "Round status is exact at every decision point",
  "At every decision point the scores, riichi sticks, honba, dora indicators, dealer, remaining rounds, remaining dealer turns (within the scheduled rounds), closed-hand, riichi, double-riichi and one-shot flags of all players are exactly what the deal and the events so far imply. A riichi stake is paid, and riichi, double riichi and one-shot become effective, when the riichi is accepted; one-shot ends with any call or after the player's next own turn.",
  ["histories"], "All game histories of the bounded game search, at each decision point, for every round number, dealer and game length.",
  "Interplay of calls, kans, riichi and first turns across seats; tests never look at status fields.",
  [M + "process_xml.py", M + "gameinfo.py"], [("status variables", M + "process_xml.py process"), ("round arithmetic", M + "gameinfo.py RoundInfo")],
  ["state attached to decision points"])

p("C11", "A recorded decision point never changes afterwards",
  "What is recorded for a decision point depends only on the events up to it: converting a log cut off after any event (and closed by a drawn round) gives the same decision points, states, offers and tokens as the corresponding prefix of the full conversion, apart from the mark for what was chosen. No recorded state shares mutable data with another in a way that later events alter it.",
  ["histories"], "Every cut position of every game history of the bounded search, and state values compared at each point with those implied at that moment.",
  "Aliasing of live arrays shows up only when an earlier snapshot is re-read after later events; tests read none.",
  [M + "process_xml.py", M + "state.py"], [("snapshot construction", M + "process_xml.py StateObject(...) call sites")],
  ["all fields reachable from returned decision points"])

p("C12", "Rounds and games are converted independently and repeatably",
  "The result for a round depends only on that round's events and the game's rules: it is the same whatever rounds precede or follow it in the file, whatever files were converted before in the process (including ones that were rejected or malformed), and on every repetition, in the same process or another. Rounds come out in file order, one list of decision points and one token list each.",
  ["histories", "fault_sequences"], "All ordered pairs and triples of a set of round kinds in one file, and all sequences of up to three conversions over good, rejected and malformed files.",
  "Leakage through shared tables or leftovers needs particular sequences; tests convert nothing.",
  [M + "process_xml.py", M + "utils/constants.py"], [("per-round initialisation", M + "process_xml.py process"), ("round grouping", M + "process_xml.py _get_rounds")],
  ["result of converting files"])

p("C13", "Exactly the supported rule sets are converted; others are rejected as invalid",
  "A log is converted exactly when it is a four-player game against humans with red fives and open tanyao and without a disconnection, and the game length follows the rule flags; every other well-formed log is rejected with the dedicated invalid-game error and yields nothing. The decoded flags are exactly those in the rule code.",
  ["configurations"], "All 256 rule codes, with and without a disconnection at each event position.",
  "One file with one rule code exists in the repository; no test converts it.",
  [M + "process_xml.py", M + "gameinfo.py"], [("rule filter", M + "process_xml.py process"), ("flag decoding", M + "gameinfo.py GameInfo")],
  ["exception or result of converting a file"])

p("C14", "The shanten solver returns the true shanten number",
  "For every concealed hand of 34-kind tile counts with 13 or 14 tiles less three per open meld, the solver's answer is the minimal number of tile exchanges to tenpai over the standard, seven-pairs and thirteen-orphans forms (-1 when complete), the last two only for hands without open melds. Solving one hand does not change the result for another nor the hand given to it.",
  ["inputs", "histories"], "All hands over the stated bounded alphabets of tile kinds and sizes, against an independent exact solver.",
  "The search has many pruned branches; no test calls it.",
  [M + "utils/shanten.py"], [("recursive decomposition", M + "utils/shanten.py ShantenSolver.solve*")],
  ["returned number"])

p("C15", "The data loader delivers every usable game once per pass",
  "One pass over a directory delivers every convertible game exactly once, in order, in batches of the configured size (only the last may be smaller, none is empty), games and token lists aligned, and then stops. Rejected, malformed or failing files are skipped without losing, repeating or reordering others or ending the process, and after a reset the next pass delivers the same again.",
  ["fault_sequences", "histories"], "All outcome sequences (good, rejected, malformed, internal check failed) of directories up to the bound, all batch sizes, all interleavings of next and reset.",
  "Boundary cases depend on the position of bad files relative to batch edges; no test runs the loader.",
  [M + "utils/dataloader.py"], [("batch assembly", M + "utils/dataloader.py DataLoader.__next__"), ("reset", M + "utils/dataloader.py DataLoader.reset")],
  ["items produced by iteration"])

p("C16", "Training rows carry the right options and the right label",
  "Each decision point yields one row per player who had a choice (for reactions: in turn order up to the player who acted), in which exactly the offered options plus pass (for discards: the tiles in hand) are allowed and the label is the action taken, or pass. Rows of different decision points and players never mix, in each of the four model families.",
  ["inputs", "histories"], "All combinations of offered and taken actions up to the bound at each kind of decision point and seat, batches of several rounds and games, and all decision points of a game corpus, for the four families.",
  "Labels are computed by four copies of branching code; the only test of it does not run.",
  AG, [("row builders", "_build_during_tensor, _build_discard_tensor, _build_post_tensor of each agent")],
  ["mask and label tensors produced for batches"])

p("C17", "A row shows the deciding player's view, and nothing hidden",
  "The features of each row are those of the player who decides in that row: own concealed hand, tiles unseen from that seat, discards and the public status, in one fixed layout. They do not depend on tiles that player cannot see: changing other players' concealed tiles or the undrawn wall consistently leaves the row unchanged.",
  ["histories", "inputs"], "All decision rows of the game histories of the bounded search, for the four model families, and all pairs of deals that differ only in hidden tiles within the bound.",
  "Wrong-seat or leaked information leaves shapes intact; no test compares features across seats.",
  AG + [M + "process_xml.py", M + "state.py", M + "turn.py"], [("feature conversion", "_convert_state_obj_to_tensors of each agent"), ("state per decision point", M + "process_xml.py process")],
  ["feature tensors produced for batches"])

p("C18", "A row's history is the round so far and nothing later",
  "The history input of each row is exactly the token sequence of that round up to the decision, including the discard or added kan being reacted to, followed by zero padding to the fixed length. No token of a later event, another round or another game ever appears in it.",
  ["histories"], "Every decision row of the explored game histories, every history length from 0 to the longest legal round, for the four model families.",
  "Look-ahead leakage inflates accuracy silently; the only test on windows does not run.",
  AG + [M + "process_xml.py", M + "turn.py"], [("window cut", "encoding_idx in each _build_*_tensor"), ("position recorded", M + "process_xml.py encoding_idx")],
  ["history tensors produced for batches"])

p("C19", "Models never give probability to a disallowed action; losses are exact",
  "For every batch each model yields, for each kind of decision with at least one row, one score row per input row over that kind's slots, with zero probability on every disallowed action, and the mean cross-entropy of the labels as a finite loss. When rows are subsampled, each selected row keeps its own history, features, options, player and label, no row is taken twice, and the number selected is the stated size.",
  ["inputs", "configurations"], "All option masks up to the bound per head, all subsampling permutations of small batches, all subsets of present decision kinds, every model variant the trainer can build.",
  "Index misalignment under subsampling keeps shapes valid; no test runs a model.",
  AG, [("masking and loss", "Decoder.forward"), ("subsampling", "forward(sample=True)")],
  ["scores and loss yielded by the models"])

p("C20", "Different histories look different to the model; padding is neutral",
  "The history encoder of each model distinguishes any two histories that differ in the kind, seat, tile, drawn flag or call of one event at any position, and distinguishes an event from padding, which looks the same at every position and to every player. In the seat-relative family the encoding depends on seats only relative to the deciding player.",
  ["inputs"], "All event tokens that can occur, at every position stated in the bound, for each model family (randomly initialised weights, fixed seeds); all four rotations of seats.",
  "A mask on the wrong condition drops a whole event class from the model's input without any error; no test runs the encoder.",
  AG, [("token field decoding and masks", "Encoder.forward of each agent")],
  ["encoder output"])

p("C21", "Training resumes from the newest complete checkpoint after any crash",
  "Training resumes with the weights of, and at the iteration after, the numerically latest checkpoint of exactly the requested model, and from scratch if there is none; other models' files and stray files are ignored. If the process dies at any point of saving a checkpoint, a rerun still finds every completed checkpoint and loads only complete ones.",
  ["crash_points", "configurations"], "All subsets of a set of file names up to the bound, and every crash point (each system-level write, with torn and missing contents) of saves in a multi-iteration run.",
  "Crash timing and file-name sets; no test saves or loads a checkpoint.",
  [M + "supervised_learning.py"], [("selection", M + "supervised_learning.py find_latest_checkpoint"), ("save and resume", M + "supervised_learning.py train")],
  ["files in the checkpoint directory, weights and iteration at start of training"])

p("C22", "The training loop consumes each batch once and validation changes nothing",
  "In every iteration, training performs one optimisation step per head output of every batch of that iteration's year directory (years in round-robin by absolute iteration, also across resumes), and saves one checkpoint per iteration under its iteration number. Validation runs in evaluation mode without gradients, always restarts from the beginning of the validation set, leaves parameters unchanged and returns to training mode.",
  ["histories", "configurations"], "All combinations of small numbers of iterations, batches per year, head outputs per batch, validation sizes (including none) and resume points, with stub models and loaders under the real loop.",
  "Needs whole training runs; no test trains.",
  [M + "supervised_learning.py"], [("loop", M + "supervised_learning.py train"), ("validation", M + "supervised_learning.py estimate_loss")],
  ["calls made on model, optimiser and loaders; checkpoints written"])

p("C23", "Every legal round becomes the full sequence of decision points",
  "Every legal game log is converted without failure, and each round yields exactly one own-turn decision point per draw, one discard point and one reaction point per discard, and one reaction point per added kan, in event order. Each point carries the acting seat, the discarded tile where applicable and its position in the token history.",
  ["histories"], "All game histories of the bounded game search, including calls, kans of every kind, riichi, wins, abortive and exhaustive draws.",
  "A history that trips an internal check kills a whole training run; the tests convert no log.",
  [M + "process_xml.py", M + "turn.py"], [("event dispatch", M + "process_xml.py process")],
  ["first result of processing a log"])

p("C24", "The raw-data filter deletes and unpacks exactly what it should",
  "Running the raw-data filter in a data directory removes exactly the (non-hidden) files in the raw folder whose names do not start with the wanted prefix, unpacks exactly the remaining compressed files whose unpacked name is free, and leaves everything else, inside and outside that folder, unchanged. Running it again changes nothing more.",
  ["configurations", "fault_sequences"], "All subsets of a set of file kinds and names (including blanks and look-alikes) up to the bound, and repeated runs.",
  "No test runs the script; which names exist decides what is deleted.",
  [M + "data/filter_raw.sh"], [("deletion loop", M + "data/filter_raw.sh"), ("unpack loop", M + "data/filter_raw.sh")],
  ["directory contents after a run"])

p("C25", "The downloader saves each linked log once, under its id, and only good answers",
  "For every index page in the raw folder, each game link is requested exactly at the log address of its id, and the body of each successful answer is saved unmodified under that id; an unsuccessful answer saves nothing and does not stop the remaining downloads. Links and files that are not game logs are ignored.",
  ["configurations", "fault_sequences"], "All pages up to the bound over a set of link shapes, and all sequences of answers (success, failure codes) with a stand-in for the network.",
  "No test runs the script; the answers come from a remote server.",
  [M + "data/scrape_data.py"], [("link extraction and saving", M + "data/scrape_data.py")],
  ["requests made and files written"])

p("C26", "A row's scores depend on that row alone",
  "In evaluation mode the scores a model gives a decision depend only on that decision's own row and the model's weights. They are the same whichever other rows are in the batch and however many, in whatever order, however rounds are grouped into games and batches, with or without subsampling, and whatever the model was run on before.",
  ["inputs", "histories"], "All ordered pairs of rows of a pool with rows of all three kinds of decision, large batches around each row, all four model families, each compared with the row alone.",
  "No test runs a model; a leak between rows (a normalisation or attention over the wrong axis, a reused buffer) leaves shapes and losses plausible.",
  AG, [("model forward passes", "MahjongAI/agents/*.py forward"), ("attention", "MahjongAI/agents/*.py MultiHeadAttention")],
  ["scores yielded by a model"])

p("C27", "Every fact a row shows reaches the scores",
  "Whatever a row shows can influence each kind of decision: two rows that differ in one tile count of the hand, the unseen tiles or the shown discards, in one player's score, riichi, double riichi, one-shot, closed-hand or dealer entry, in the tiles, sticks, honba, rounds or dealer turns left, in one event of the history or in the order of two events, get different scores from a model with generic weights. No two such changes are confused with each other.",
  ["inputs"], "Every value of every entry of a row and every change of one event or exchange of two neighbouring ones or two of one kind, for each head of each of the four families; all pairs of them compared under fixed weightings.",
  "A feature that is dropped, overwritten or summed away on its way to the heads only costs playing strength; nothing fails.",
  AG, [("state network", "MahjongAI/agents/*.py StateNet"), ("decoder", "MahjongAI/agents/*.py Decoder")],
  ["scores yielded by a model"])

p("C28", "Each head's loss trains every weight that it depends on",
  "For every model family and every kind of decision, the gradient that the loss sends back to each weight of the model equals the rate at which the loss really changes with that weight, in training and in evaluation mode. In particular every weight that influences the loss receives a gradient (embeddings, encoder, state network, decoder and head alike), and a loss never moves a weight it does not depend on, such as another head's.",
  ["inputs"], "Every weight tensor of every family, head and mode, against the measured change of the real loss in double precision.",
  "A detached or frozen part still gives falling losses; no test computes a gradient.",
  AG, [("forward passes", "MahjongAI/agents/*.py forward"), ("losses", "MahjongAI/agents/*.py Decoder.forward")],
  ["losses yielded by a model and their gradients"])

p("C29", "How a log is written down does not matter, only what happened in the game",
  "Two logs of the same game events give the same result however they are written: attribute order, extra attributes, white space and line ends, quoting, character references, comments, paired or self-closing tags, XML declaration, encoding and byte-order mark, the player names, ranks, lobby and shuffle lines, the payment details of the result lines, the name of the file, and whether the conversion is asked to be verbose.",
  ["inputs", "configurations"], "Every one of about 35 variations and every pair of them, on logs with calls, kans, riichi and wins and on recorded games.",
  "The tests read no log; logs from different years and tools differ in exactly these ways.",
  [M + "process_xml.py"], [("reading of the log", M + "process_xml.py _get_rounds"), ("event fields", M + "process_xml.py process")],
  ["result of processing a log"])

p("C30", "Every optimisation step moves every weight at the scheduled rate",
  "Within a run of the training script the n-th optimisation step, counted from zero over all kinds of decisions, batches and iterations, is one AdamW step on every weight of the model that has a gradient, from the gradient of one head's loss alone, at a learning rate that rises linearly from 0 to 0.001 over the first 1,000 steps and then falls along half a cosine towards 0 at step 1,000,000. Nothing else changes the weights.",
  ["configurations", "histories"], "Every value of the step counter up to the bound and every distribution of steps over heads, batches and iterations.",
  "No test trains; a weight left out of the optimiser or a schedule counted in batches still trains plausibly.",
  [M + "supervised_learning.py"], [("optimiser, schedule and training loop", M + "supervised_learning.py train")],
  ["weights of the network after every step"])

p("C31", "A checkpoint restores the player that was saved",
  "The checkpoint that an iteration of training saves holds everything that determines what the model says. Loaded into any model of the same name, new or used, however initialised, in this process or another, it gives for every row the scores and losses of the network that was saved.",
  ["histories", "configurations"], "All nine models, the checkpoints of successive iterations, and every listed way to load them, on rows of all three kinds of decision.",
  "No test saves or loads a model; state kept outside the checkpoint (a buffer, a random table, a normalisation's statistics) is only missed when a resumed or deployed player has become weaker.",
  [M + "supervised_learning.py"] + AG, [("saving and loading", M + "supervised_learning.py train"), ("model state", "MahjongAI/agents/*.py")],
  ["scores and losses of a loaded model"])

p("C32", "Work that overlaps in time does not interfere",
  "Conversions of logs (different ones, the same one, refused or malformed ones) that run at the same time in several threads each give the result they give alone, wherever one is interrupted by another. The same holds for evaluations by models in evaluation mode, by the same model or different ones, and for lazily taken results of several evaluations in any order.",
  ["schedules"], "All interleavings of two threads with one switch at any line and two switches at calls, and all orders of taking results.",
  "Tests run one thing at a time; state shared between calls only shows under particular interleavings.",
  [M + "process_xml.py", M + "decision.py", M + "utils/agari.py", M + "utils/shanten.py"] + AG, [("conversion", M + "process_xml.py process"), ("evaluation", "MahjongAI/agents/*.py forward")],
  ["results of conversions", "scores yielded by a model"])

p("C33", "The training command trains exactly the model it names, or refuses",
  "Given the name of one of the nine models and a number of iterations, the training command saves exactly that many new checkpoints under that name, numbered on from the ones already there, each holding weights of that name's family and number of layers (the number at the end of the name; two layers for transformer_conv_large, one for transformer_conv_ordered), each of which takes part in the scores. It leaves every other checkpoint alone. Any other command line (another name, something that is not a whole number, too few or too many arguments) is refused and saves nothing.",
  ["configurations", "histories"], "All sequences of up to two commands over all names, small numbers of iterations and a list of lines to refuse, each in the directory the earlier ones left.",
  "No test runs the command; training the wrong architecture under a name is noticed only when checkpoints of it are compared or resumed.",
  [M + "supervised_learning.py"], [("arguments", M + "supervised_learning.py __main__"), ("choice of the model", M + "supervised_learning.py train")],
  ["exit of the command", "files in saved_models and the weights in them"])

p("C34", "A damaged log is never taken for a whole one",
  "A log file that ends early at any byte, has a tail or block of zeros from a lost write, or goes on after its end (written twice, or with the beginning of another file) is not converted, not even in part: the conversion ends with an error and yields no rounds. The loader passes over such a file and delivers its neighbours whole.",
  ["crash_points", "inputs"], "Every byte of short logs, and points throughout a whole-length game, as the place of each kind of damage.",
  "Tests read one intact file; a download or disk that fails at one particular byte gives a game that silently lacks its later rounds.",
  [M + "process_xml.py", M + "utils/dataloader.py"], [("reading of a log", M + "process_xml.py _get_rounds"), ("passing over files", M + "utils/dataloader.py __next__")],
  ["error of a conversion", "games delivered by the loader"])

p("C35", "The losses that training reports are the true ones",
  "Training goes on whatever batches it meets, also ones without any row, and reports losses at least at the first batch of every iteration that has games. Every reported validation loss is the mean of the losses of all outputs for the validation batches of that evaluation, each over all rows of its batch and not a sample of them (not a number if there are none), which reaches over at least 20 games or the whole validation set; the training loss next to it is that of the last optimisation step (not a number before the first). Every message stands in the run's log file as it does on the console, in the same order.",
  ["configurations", "histories"], "All nine models, training sets of 0-11 and validation sets of 0-29 games, no to three outputs per batch, several iterations and a resumed run.",
  "No test runs training; a report averaged over the wrong losses misleads every choice between models and still looks plausible.",
  [M + "supervised_learning.py"], [("validation", M + "supervised_learning.py estimate_loss"), ("reports", M + "supervised_learning.py train, log_message")],
  ["lines with losses on the console", "log file of the run"])

p("C36", "A log in which a player uses tiles not in hand is never converted",
  "A log is not converted, not even in part, and the conversion ends with an error, if in one of its rounds a player is not dealt thirteen different tiles, throws or exposes a tile that is not in that player's hand, throws without having drawn or claimed a tile, draws while a throw is due (their own or another player's), throws when another player has to, or draws a tile that is already in that player's hand. Nothing is claimed about logs that are impossible in other ways.",
  ["inputs", "histories"], "Every single edit (an event left out, doubled, exchanged with another, at another seat, with any other tile or call; any changed tile of the deal) of explored rounds.",
  "Tests convert one correct game; a log with a wrong event would otherwise become training rows with negative or doubled tile counts, which nothing downstream notices.",
  [M + "process_xml.py"], [("deal", M + "process_xml.py INIT"), ("draws, throws and calls", M + "process_xml.py conversion loop")],
  ["error of a conversion", "rounds yielded before it"])

p("C37", "Suits, directions and seats are treated alike",
  "If in the log of a round the three suits are exchanged with one another, the numbers of every suit are reversed (1 for 9, 2 for 8 and so on; a red five stays a red five), or all players move on by the same number of seats (in the same round wind), the conversion gives the same decision points in the same places of the history: their players, tiles, offers, marks of what was taken, bookkeeping and status are those of the original with tiles and seats renamed (after a change of seats: apart from the number of rounds left), and the history has as many tokens, equal ones where the original has equal ones.",
  ["histories", "inputs"], "All histories of the explored worlds and the recorded games, and their images under every exchange of suits, the reversal and every change of seats (thorough: all 47 combinations).",
  "Tests convert one game; a slip in one suit, at one end of a suit or at one seat shows in one hand of thousands.",
  [M + "process_xml.py", M + "decision.py", M + "draw.py", M + "utils/agari.py", M + "utils/shanten.py"],
  [("calls on a discard", M + "decision.py"), ("wins", M + "utils/agari.py"), ("conversion", M + "process_xml.py process")],
  ["decision points of a round", "tokens of a round"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
