#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
ALL = [S + f + ".rs" for f in "elo glicko glicko2 glicko_boost sticko trueskill/mod weng_lin uscf dwz ingo fifa egf".split()]
TEAMS = [S + "trueskill/mod.rs", S + "weng_lin.rs"]
PROPS = []
def P(id, title, statement, over, text, why, files, mech, oracle, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, oracle=oracle, note=note))

P("P01", "Expected scores form a fair, consistent prediction",
  "For any two players in any of the twelve rating systems, the two expected scores lie between 0 and 1, add up to 1, and stay with their players when the two change sides (any side advantage or handicap negated). Equally strong players get 0.5 each, the stronger one (after any side advantage or handicap) never less than the weaker, and raising a player's strength never lowers that player's expected score and raises it strictly unless it is already practically 0 or 1. This holds for every finite rating, uncertainty and configuration of the usual ranges and far beyond, in Go as long as rating plus handicap stays below 3300.",
  ["inputs", "configurations"], "all pairs of ratings, uncertainties and configs of all twelve systems",
  "The tests compare a few hand-picked pairs with fixed numbers; range, symmetry and monotonicity over the whole plane are never stated.",
  ALL, [("expected score functions", "expected_score in each file of src/")],
  "algebraic laws: range, sum, side symmetry, favourite, strict monotonicity (metamorphic)", "")
P("P02", "Predictions for a list of opponents equal the single ones",
  "For any player and any list of opponents, the prediction for the list has exactly one entry per opponent, in the given order, and each entry equals the player's expected score in the single game against that opponent. Where games carry a colour or a handicap (Sticko, EGF), each entry uses the setting of its own game; an empty list gives an empty result.",
  ["inputs", "configurations"], "all players, opponent lists of any length, per-game colours and handicaps",
  "The tests use lists of two to four opponents with one configuration; no test relates the list form to the single form.",
  ALL, [("list predictions", "expected_score_rating_period in each file of src/")],
  "differential: list form against head-to-head form of the same system", "Known finding: Glicko-Boost ignores the colour in the list form; excused exactly for that value.")
P("P03", "Team win predictions form a probability distribution",
  "For TrueSkill and Weng-Lin, the predictions for any teams (one to many, of any sizes) lie between 0 and 1, add up to 1, come one per team, follow the published formula, and do not depend on the order of teams or of players within them. Single-player, two-team and many-team predictions agree with each other for the same match-up. A better rating of one player never lowers the prediction of the own team nor raises that of any other.",
  ["inputs", "configurations"], "all teams, team sizes, ratings and configs",
  "A handful of fixed match-ups are tested, mostly with equal team sizes.",
  TEAMS, [("team predictions", "expected_score_two_teams, expected_score_multi_team")],
  "reference model of the published formula, plus permutation, agreement and monotonicity relations", "")
P("P04", "Ratings do not depend on which side a player is listed",
  "Rating a game with the two players (or, in TrueSkill and Weng-Lin, two teams of any sizes) exchanged, the outcome reversed and any side advantage or handicap negated gives both sides exactly the same new ratings as before, uncertainties, counters and volatility included, up to rounding. This holds for wins, draws and losses and every configuration, including FIFA's knockout and penalty settings.",
  ["inputs", "configurations"], "all pairs of players or teams, outcomes and configs",
  "Tests fix one order; the code treats player one and two by separate statements.",
  ALL, [("two-sided updates", "elo(), glicko(), ... and *_two_teams")],
  "metamorphic: exchange of sides", "")
P("P05", "A better result never means a worse new rating",
  "In every system, winning never leaves a player with a worse new rating than drawing, and drawing never with a worse one than losing; in a rating period, improving one single result never worsens the new rating (all systems except Glicko-Boost, TrueSkill and Weng-Lin), and in TrueSkill two-team and Weng-Lin two- or many-team matches the same holds for every team member, nor does a better place raise those overtaken. In Ingo a lower number is the better rating. Further, a win never costs points and a loss never brings any, except where the system itself provides for it (Sticko's bonus or pull, FIFA shoot-outs and knockouts, provisional USCF players, Ingo, and EGF's loss bonus).",
  ["inputs", "configurations"], "all players, teams, outcomes and configs; any one improved result in a period",
  "Tests check single outcomes against fixed numbers and never compare outcomes over the whole input space.",
  ALL, [("rating updates", "the update functions of each system")],
  "metamorphic: the same match with a better and a worse result", "")
P("P06", "Ratings stay valid through any history of play",
  "Starting from valid ratings, no sequence of games, rating periods, team matches and pauses ever yields a rating that is not finite, an uncertainty or volatility that is not positive and finite, or a changed number of teams or players. Deviations of Glicko, Glicko-Boost and Sticko never exceed 350, EGF ratings stay from -900 up to below 3300, and USCF ratings never fall below 100. A USCF player's game count grows by exactly the games played, a DWZ player's index by one per game or period played, and ages never change.",
  ["histories", "inputs", "configurations"], "all histories of games, periods, pauses and team matches of all systems",
  "Tests apply one update, at most a short losing streak, to one start value.",
  ALL, [("caps and floors", "min/max in each system; counters in uscf.rs and dwz.rs")],
  "stateful generation with an invariant after every step", "")
P("P07", "Rating periods agree with single games",
  "A rating period without games leaves the rating as it was and can only increase the uncertainty (Ingo and USCF: nothing changes); a period of exactly one game gives the same result as the single-game update, seen from either side and for either colour. For the systems that rate games one after another (Elo, FIFA, TrueSkill, Weng-Lin) a period equals the games rated in turn against the opponents as given, while for all others the order of the games within the period does not matter. FIFA games and EGF games each use their own configuration, and an EGF period changes the rating by the sum of what its games would change singly.",
  ["inputs", "histories", "configurations"], "all players, lists of games of any length and order, per-game settings",
  "One test per system compares a single one-game period; longer and empty periods are checked for fixed numbers at most.",
  ALL, [("rating periods", "*_rating_period in each file")],
  "differential: period against single games, permutations of the games", "")
P("P08", "The generic interface gives the same results as the functions",
  "For every system, rating games, rating periods, two-team and many-team matches and asking for predictions through the generic traits gives the same results as calling the corresponding functions directly with the same configuration, however often and in whatever order the system value is used. The generic view of a player reports the stored rating and uncertainty (none for systems without one), and creating a player generically stores exactly the given values, with the system's defaults for those left out.",
  ["inputs", "histories", "configurations"], "all systems, configs, calls and sequences of calls on one value",
  "Each trait implementation is exercised by one test with the default configuration.",
  [S + "lib.rs"] + ALL, [("trait implementations", "impl RatingSystem, RatingPeriodSystem, TeamRatingSystem, MultiTeamRatingSystem, Rating in each file")],
  "differential: trait call against direct function", "")
P("P09", "Constructors, defaults and conversions give documented values",
  "Every constructor, default and conversion between plain values, outcomes, ranks and the rating types of different systems yields the documented value for every input: the Glicko family and TrueSkill/Weng-Lin exchange values unchanged, Elo converts to and from FIFA, DWZ, Ingo and USCF by the documented formulas, and USCF start ratings follow the age rule. Converting from Elo to Ingo or USCF and back restores the rating up to rounding, and conversion never changes which of two players is the stronger. Default ratings and default configurations have the documented values.",
  ["inputs"], "all ratings, uncertainties, ages and counts",
  "Tests convert one or two values in each direction; the two-branch USCF formula and its border are sampled once.",
  [S + "lib.rs"] + ALL, [("From and Default implementations, new()", "each file")],
  "explicit documented formulas, round trips, order preservation", "")
P("P10", "Stored values come back exactly",
  "With the serialisation feature on, every rating, configuration, outcome and rank can be stored as JSON and read back with every number bit for bit the same, for all finite numbers and all counters, alone or inside other data and with fields in any order. The stored form has exactly the public field and variant names, so that data stored by one version is readable by the next; a rank is stored as its bare number.",
  ["inputs"], "all values of the 24 serialisable types",
  "No test serialises anything.",
  [S + "lib.rs"] + ALL, [("serde derives behind the serde feature", "each public struct and enum")],
  "round trip, and the stored text against the public field names", "Observed through serde_json.")
P("P11", "Many-team results follow the teams, not their order",
  "For any number of teams of any sizes, the new ratings come back one per player, in the given order of teams and players. Only the relative order of the ranks counts, not their numbers (ranks need not start at 1 nor be consecutive), and listing the teams, or the players within a team, in another order gives every player the same new rating up to rounding. (TrueSkill with ties among more than two teams may depend on the order of the teams.)",
  ["inputs", "configurations"], "all teams, sizes, ranks, weights, and permutations",
  "Tests use one listing, mostly already sorted by rank.",
  TEAMS, [("sorting and restoring the order of teams", "trueskill_multi_team, weng_lin_multi_team")],
  "metamorphic: order-preserving renumbering, permutation of teams and players", "")
P("P12", "One-on-one, two-team and many-team ratings agree",
  "For TrueSkill and Weng-Lin, rating two teams of one player each gives the same new ratings as the one-on-one form for every outcome and configuration. Rating two teams of any sizes as a two-team match gives the same new ratings as rating them as a many-team match with the corresponding ranks (for TrueSkill with a dynamics factor of 0).",
  ["inputs", "configurations"], "all teams, sizes, outcomes and configs",
  "Each form has its own fixed examples; the forms are written separately and never compared.",
  TEAMS, [("the three forms of each system", "trueskill, trueskill_two_teams, trueskill_multi_team and the weng_lin counterparts")],
  "differential: one form against another", "")
P("P13", "Partial-play weights are honoured and validated",
  "In TrueSkill many-team matches, leaving out the weights means that everyone has weight 1.0; a player with weight 0 keeps the rating (the uncertainty only grows by the dynamics factor), and within a team the rating moves in proportion to weight times variance and the variance shrinks in proportion to the square of that. Weights that do not fit the teams or are negative are refused with the error that names the first offending team and player, both by rating and by match quality. Every team is assumed to have a player with positive weight.",
  ["inputs", "configurations"], "all teams, ranks and weight lists, fitting or not",
  "Tests use two or three weight lists and one error of each kind.",
  [S + "trueskill/mod.rs", S + "trueskill/weights.rs", S + "trueskill/schedule.rs"], [("weight validation and use", "get_weights, schedule in trueskill_multi_team, match_quality_multi_team")],
  "exact error oracle, proportionality invariant, differential with explicit 1.0", "Known finding: a team whose weights are all 0.0 gives NaN.")
P("P14", "Match quality is a consistent value between 0 and 1",
  "TrueSkill match quality lies between 0 and 1 for any players, teams of any number and sizes, weights and configuration, follows the published formula, and does not depend on the order of sides, teams or players. The one-on-one, two-team, many-team and list forms agree with each other, and a larger rating gap between two players never improves the quality. The computation returns promptly for any number of teams.",
  ["inputs", "configurations"], "all teams, sizes, weights and configs",
  "Two or three fixed matches are tested.",
  [S + "trueskill/mod.rs", S + "trueskill/matrix.rs"], [("match quality and its matrix algebra", "match_quality*, Matrix")],
  "reference model (tridiagonal elimination) plus permutation and agreement relations", "Known finding: two teams with all-zero weights.")
P("P15", "Uncertainty grows with inactivity and shrinks with play",
  "In the Glicko family, an inactive period adds exactly the published amount to the variance and never reduces the deviation, never exceeds 350 and never changes the rating or volatility; a rating period without games does the same; confidence intervals are the rating plus and minus 1.96 deviations. Games never leave a Glicko player less certain than the start of the period does, and Glicko and Sticko deviations do not depend on the results. In TrueSkill and Weng-Lin a game never raises the uncertainty beyond the dynamics factor, the less certain of two opponents moves further, and the TrueSkill rank is the rating minus three uncertainties.",
  ["inputs", "histories", "configurations"], "all players, configs, numbers of pauses and games",
  "One fixed example per function is tested.",
  [S + "glicko.rs", S + "glicko2.rs", S + "glicko_boost.rs", S + "sticko.rs"] + TEAMS, [("decay, confidence interval, deviation update", "decay_deviation, confidence_interval, get_rank")],
  "explicit formulas and monotonicity relations", "Glicko-2 deviations above 350 after games are as published.")
P("P16", "Results depend on the arguments alone",
  "Every function of the library returns bit-for-bit the same result whenever it is called with the same arguments: again, after or between any other calls, with arguments that are nearly but not quite the same in between, in any order, and on any thread, also while other threads are calling it. Nothing is remembered between calls and no argument is changed.",
  ["histories", "schedules", "inputs"], "all sequences of calls of all functions, orders, and concurrent threads",
  "Every test calls a function once with fixed arguments; no test relates calls to each other.",
  [S + "lib.rs"] + ALL, [("pure functions without shared state", "all public functions")],
  "repetition, reordering and concurrency with bitwise comparison", "Thread schedules are the operating system's, not enumerated.")
P("P17", "Points are conserved and only differences matter",
  "In Elo and in FIFA without knockout or shoot-out, the two sides' changes cancel exactly, so the sum of all ratings never changes in any tournament; in TrueSkill and Weng-Lin two-team matches the changes divided by the variances are equal within a team and opposite between the teams. Adding the same number to all ratings shifts the new ratings by that number and changes nothing else, predictions included (Elo, FIFA, Ingo, Glicko, Glicko-2, Sticko, TrueSkill and Weng-Lin one-on-one and in periods). Multiplying all TrueSkill or Weng-Lin ratings, uncertainties and the performance and dynamics parameters by a factor multiplies the results by it and leaves predictions and match quality as they are.",
  ["inputs", "histories", "configurations"], "all players, teams, tournaments, shifts and factors",
  "Tests look at single fixed results.",
  [S + f for f in ["elo.rs", "fifa.rs", "ingo.rs", "glicko.rs", "glicko2.rs", "sticko.rs"]] + TEAMS, [("rating updates", "the update functions")],
  "conservation invariant over tournaments; metamorphic shift and scale", "")
P("P18", "Related systems coincide where their definitions do",
  "With bonus, pull, side advantage and variance addition set to 0, Sticko gives the same ratings, deviations and predictions as Glicko for every game, period and pause; with no side advantage and no boost, Glicko-Boost gives the same as Glicko followed by its own inactivity step. For the same ratings, Elo, USCF, DWZ, FIFA (at 1.5 times the difference), and Glicko and Sticko with certain ratings predict the same expected score, and Glicko-2 predicts the same as Glicko up to its rounded scale.",
  ["inputs", "configurations"], "all players, games and configs",
  "One test compares one Glicko-Boost and one Sticko game with Glicko.",
  [S + f for f in ["glicko.rs", "glicko2.rs", "glicko_boost.rs", "sticko.rs", "elo.rs", "uscf.rs", "dwz.rs", "fifa.rs"]], [("shared formulas", "g_value, e_value, expected_score")],
  "differential between systems", "")
P("P19", "Degenerate inputs are handled without panicking",
  "Every function returns, without panicking, for empty lists of games, opponents or teams, empty teams, single teams, teams of very different sizes, extreme but finite ratings and uncertainties, any ages and counts, and weights that do not fit. Matches that cannot be played (an empty team, or fewer than two teams) leave all ratings unchanged and have match quality 0; results always have one entry per input. A first DWZ needs at least five games and neither all nor no points, and otherwise gives the error naming the reason.",
  ["inputs"], "all shapes of lists and teams, extreme finite numbers",
  "A few empty-input cases are tested, each for one function.",
  ALL, [("guards for empty input", "two_teams and multi_team functions, rating periods, get_first_dwz")],
  "totality, shape and documented error or identity result", "Glicko-2 numbers stay in the usual range; counters below the integer limit.")
def F(id, title, statement, files, mech, extra=""):
    P(id, title, statement, ["inputs", "configurations"], "all players, outcomes, configs and lists of games of the system",
      "The tests compare a few examples with fixed numbers; branches and borders between them are not covered.",
      files, mech, "reference model written from the published description", extra)
F("P20", "Elo follows its published formula",
  "For all ratings, k values and outcomes, each player's new Elo rating is the old one plus k times (points minus expected score), where the expected score is 1/(1+10^(difference/400)). A rating period applies this game after game to the player's current rating against the opponents' given ratings, and predictions use the same expected score.",
  [S + "elo.rs"], [("Elo update", "elo, elo_rating_period, expected_score")])
F("P21", "FIFA ratings follow the published formula",
  "For all ratings, importance values and outcomes, each team's new rating is the old one plus importance times (points minus expected score), the expected score being 1/(1+10^(difference/600)). In a match decided by penalties the winner of the shoot-out scores 0.75 and the other side (and either side of a drawn one) 0.5, and in knockout rounds no team loses points. A period applies this match after match with each match's own settings.",
  [S + "fifa.rs"], [("FIFA update", "fifa, fifa_rating_period, expected_score")])
F("P22", "EGF ratings follow the published formula",
  "For all ratings from -900 upwards, handicaps and outcomes (rating plus handicap below 3300), expected scores, changes and bonus follow the formulas of the European Go Federation: strength -7 ln(3300 - rating) with 100 (h - 0.5) points for a handicap of h, change con (points - expected) + bonus with con = ((3300 - r)/200)^1.6 and bonus = ln(1 + exp((2300 - r)/80))/5. No rating falls below -900, neither by a game nor by a period, and a period adds up the changes of its games, each with its own handicap.",
  [S + "egf.rs"], [("EGF update", "egf, egf_rating_period, expected_score, con, bonus, beta")])
F("P23", "Ingo ratings follow the published formula",
  "For all ratings, ages and results, the new Ingo number is the average of the old one, counted 10 times up to the age of 20, 15 times up to 25 and 20 times above, and of the performance of the games, counted once per game, where the performance is the opponents' average minus (percentage of points minus 50). The expected score is 0.5 plus a hundredth of the difference, limited to 0 and 1. Ages stay, and a period without games changes nothing.",
  [S + "ingo.rs"], [("Ingo update", "ingo, ingo_rating_period, performance")])
F("P24", "DWZ ratings follow the published formula",
  "For all ratings, ages, indices and results, the new DWZ is the old one plus 800/(development coefficient + games) times (points - expected points), the coefficient following the rules of the German chess federation: base value (rating/1000)^4 plus 5, 10 or 15 by age (up to 20, up to 25, above), acceleration for under-20s who score at least as expected, braking value below 1300 for those who score at most as expected, at least 5, at most 30 and five times the index, or 150 with braking. The index grows by one per game or period and the age stays.",
  [S + "dwz.rs"], [("DWZ update", "dwz, dwz_rating_period, e0_value, e_value")], )
P("P25", "A player's first DWZ follows the federation's table",
  "For any age and any list of games, fewer than five games or a score of 0 or 100 per cent give the corresponding error. Otherwise the first DWZ is the average rating of all opponents plus the probability table's difference for the percentage scored (rounded to whole per cent, symmetric around 50), compressed to 700 plus an eighth when this is 800 or less, with index 1 and the given age.",
  ["inputs"], "all ages and lists of games of any length, ratings and win rate",
  "Tests cover two or three lists; the table has a hundred entries.",
  [S + "dwz.rs"], [("first DWZ and probability table", "get_first_dwz, PROBABILITY_TABLE")],
  "reference model with an independently written table, exact integer percentage", "A percentage exactly between two whole ones may be rounded either way.")
F("P26", "USCF ratings follow the published formula",
  "For all ratings, game counts, thresholds and results, players with at most eight games get the provisional average (old rating times games, plus opponents' ratings plus 400 per win minus 400 per loss, over all games), others the standard formula with K = 800/(effective games + games played) and, from three games on, a bonus for what exceeds the threshold times the square root of the number of games (at most four). Ratings never fall below 100 and the game count grows by the games played; a period without games changes nothing.",
  [S + "uscf.rs"], [("USCF update", "uscf, uscf_rating_period, effective game number, bonus")])
F("P27", "Glicko ratings follow the published formula",
  "For all ratings, deviations, c values and results, the new rating and deviation after a game or a rating period are those of Glickman's Glicko formulas: the deviation first grows by c (up to 350), then all games of the period are combined at once. Predictions use both players' deviations, and periods without games or pauses only grow the deviation.",
  [S + "glicko.rs"], [("Glicko update", "glicko, glicko_rating_period, decay_deviation, expected_score")])
F("P28", "Glicko-2 ratings follow the published formula",
  "For all ratings, deviations, volatilities, tau values, tolerances and results, the new volatility after a game or rating period solves Glickman's equation within the configured tolerance, and the new deviation and rating follow from it by the published formulas. A period without games or a pause keeps rating and volatility and grows the deviation by the volatility, up to 350; predictions use both players' deviations.",
  [S + "glicko2.rs"], [("Glicko-2 update", "glicko2, glicko2_rating_period, new_volatility, decay_deviation")], "The volatility is checked by bracketing the root of its equation, not by repeating the iteration.")
F("P29", "Glicko-Boost ratings follow the published formula",
  "For all ratings, deviations, configurations, colours and results, the new rating and deviation after a game or rating period are those of Glickman's Glicko-Boost formulas: side advantage added for the first and taken from the second player, one common update of all games of the period, a boosted deviation (at most 350) for those whose z-score exceeds k (never if k is 0), and the inactivity step at the end. Pauses and predictions of single games follow the same formulas.",
  [S + "glicko_boost.rs"], [("Glicko-Boost update", "glicko_boost, glicko_boost_rating_period, boost_rd, z_value, decay_deviation")])
F("P30", "Sticko ratings follow the published formula",
  "For all ratings, deviations, configurations, colours and results, the new rating and deviation after a game or rating period are those of Sonas's Stephenson formulas: Glicko's combination of all games, with the deviation growing by c once and by h per game (up to 350), a bonus beta per game, a pull of lambda per cent towards the opponents' average, and the side advantage gamma for the first and against the second player. Pauses and predictions, each with the colour of its game, follow the same formulas.",
  [S + "sticko.rs"], [("Sticko update", "sticko, sticko_rating_period, decay_deviation, expected_score")])
F("P31", "TrueSkill two-sided ratings follow the published formula",
  "For all ratings, uncertainties, configurations and outcomes, one-on-one games, rating periods and two-team matches of any team sizes give the new ratings and uncertainties of the published TrueSkill formulas (draw margin from draw probability, performance variance and number of players; win and draw corrections also for next to impossible results), up to the accuracy of the documented normal distribution. Predictions follow the published win probability.",
  [S + "trueskill/mod.rs", S + "trueskill/math.rs", S + "trueskill/erf.rs"], [("TrueSkill update", "trueskill, trueskill_two_teams, trueskill_rating_period, v/w functions, draw_margin")])
F("P32", "TrueSkill many-team ratings follow the published algorithm",
  "For all teams, sizes, ranks (ties included), partial-play weights and configurations, the many-team update gives each player the new rating and uncertainty of the published factor-graph algorithm, with neighbouring teams in rank order compared, at most ten sweeps and an end when nothing moves by more than 0.0001. A win, loss or tie moves the teams' members accordingly, each by the own share of weight and variance.",
  [S + "trueskill/mod.rs", S + "trueskill/schedule.rs", S + "trueskill/factor_graph.rs", S + "trueskill/gaussian.rs", S + "trueskill/math.rs", S + "trueskill/erf.rs"], [("factor graph and message passing", "trueskill_multi_team, factor_graph, gaussian")], "Matches in which rounding decides about one more sweep are not compared.")
F("P33", "Weng-Lin ratings follow the published algorithm",
  "For all teams, sizes, ranks (ties included) and configurations, one-on-one games, rating periods, two-team and many-team matches give the new ratings and uncertainties of Weng and Lin's Bradley-Terry full-pair algorithm, in which each team is compared with every other, the change is shared by variance and no variance shrinks below the tolerance's fraction. Predictions are each team's share of the exponentiated strengths.",
  [S + "weng_lin.rs"], [("Weng-Lin update", "weng_lin, weng_lin_two_teams, weng_lin_multi_team, expected_score*")])

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["public functions, traits and types of the crate"], "hook_needed": None},
            }) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing: " + p["oracle"],
        "level": "exploration",
        "level_note": ("Random structured search with shrinking; finds violations, does not prove absence. Inputs as in the rule and assumptions of the evidence file. " + p["note"]).strip(),
    } for p in sorted(PROPS, key=lambda p: p["id"])]
    json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: everything is observed through the public interface. tools/gen.py writes this file and properties.jsonl. See DESIGN.md."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
