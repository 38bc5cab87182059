"""The instances of the models explored for each property.

Constants are TLA+ expressions. mode "mc" explores the instance exhaustively,
mode "sim" draws num random behaviours of it (seeded by VERIF_SEED)."""

DUAL_INV = ["JensenBounds", "MonotoneInLam", "NoNoiseIsErm", "ReductionsAgree",
            "StoredOnlyIfPre", "CentreFollows", "PreNeverRecentres"]

ALL_COSTS = """{<<"NC", 1, 1, 0, FALSE>>, <<"NC", 1, 2, 0, FALSE>>,
   <<"NC", 1, 0, 0, FALSE>>, <<"NC", 2, 2, 0, FALSE>>, <<"NC", 2, 2, 0, TRUE>>,
   <<"NC", 1, 1, 0, TRUE>>, <<"NLC", 2, 2, 1, TRUE>>, <<"NLC", 2, 2, 3, TRUE>>,
   <<"NLC", 1, 1, 1, TRUE>>, <<"NLC", 1, 2, 3, TRUE>>, <<"NLC", 2, 2, -1, TRUE>>,
   <<"NLC", 1, 0, 1, TRUE>>,
   <<"NLC", 2, 2, -3, TRUE>>, <<"NLC", 1, 1, -3, TRUE>>}"""


SQ_COSTS = """{<<"NC", 2, 2, 0, FALSE>>, <<"NC", 2, 2, 0, TRUE>>,
   <<"NLC", 2, 2, 1, TRUE>>, <<"NLC", 2, 2, 3, TRUE>>, <<"NLC", 2, 2, -1, TRUE>>,
   <<"NLC", 2, 2, -3, TRUE>>}"""


def dual(**over):
    k = dict(
        Costs='{<<"NC", 2, 2, 0, FALSE>>, <<"NLC", 1, 1, 1, TRUE>>}',
        Dims="{1}", Schemes='{"pre", "post"}', Reds='{"mean", "sum", "none"}',
        E0s="{1}", R2s="{1}", L2s="{2}", ISs="{FALSE}", Ss="{1}",
        Weights="{2}", Quads="{1}", LabCoefs="{-1}", Coords="{0, 1}",
        Offs="{-2, 1}", Labels="{1}", LabOffs="{0, 1}", Lams="{0, 2}",
        Sizes="{2}", Ns="{2}", Resets="{TRUE}", Reuse="FALSE", Steps="1",
        Biases="{0, 1}", RadScales="{0}", Floats="{FALSE}")
    k.update(over)
    return k


DUAL_WIDE = dict(
    Costs=ALL_COSTS, Dims="{1, 2}", E0s="{1, 2}", R2s="{1, 2, 3}",
    L2s="{0, 2, 4}", Weights="-2..2", Quads="{0, 1}", LabCoefs="{-2, 0, 1}",
    Coords="{-1, 0, 2}", Offs="{-2, 0, 1, 2}", Labels="{-1, 1}",
    LabOffs="{-2, 0, 2}", Lams="0..2", Sizes="{1, 2}", Ns="1..3")

# tiny radii, large losses, simple precision
DUAL_FAR = dict(DUAL_WIDE, Biases="{-300, 0, 300}", RadScales="{0, 1, 3, 6}",
                Floats="{TRUE, FALSE}", L2s="{0, 2}")
# many points, samples, coordinates
DUAL_BIG = dict(DUAL_WIDE, Dims="{1, 3, 6}", Weights="-1..1", Quads="{0}", L2s="{0}",
                Coords="-2..2", Offs="-1..1", LabOffs="-1..1", LabCoefs="{-1, 0, 1}",
                Lams="{0, 1}", Sizes="{1, 4, 9, 17}", Ns="{1, 5, 12, 33}", E0s="{1}",
                Floats="{TRUE, FALSE}", R2s="{1, 2, 20}")

COST_INV = ["NonNegative", "Symmetric", "ZeroOnIdentical", "Between"]

LOSS_INV = ["LogisticAboveMargin", "LogisticOdds", "PortfolioAboveMean", "NewsvendorConvex"]
LOSSES = """{"logistic", "quadratic", "newsvendor", "newsvendor_estimator", "portfolio",
   "weber"}"""

SAMPLER_INV = ["StreamSeed", "FreshStream", "AuditMeaningful"]
COST_KINDS = """{<<"NC", 2, 2, 1>>, <<"NC", 1, 1, 1>>, <<"NC", 1, 2, 1>>, <<"NC", 1, 0, 1>>,
   <<"NLC", 2, 2, 1>>, <<"NLC", 2, 2, 4>>, <<"NLC", 2, 2, -1>>, <<"NLC", 1, 1, 2>>,
   <<"NLC", 1, 2, 1>>, <<"NLC", 1, 2, 2>>, <<"NLC", 1, 0, 2>>, <<"NLC", 1, 1, -1>>,
   <<"NLC", 1, 1, -2>>, <<"NLC", 1, 2, -2>>}"""
FAR_KINDS = COST_KINDS[:-1] + """, <<"NLC", 1, 1, 2000>>, <<"NLC", 1, 2, 2000>>}"""
SAMPLERS = dict(Fams='{"NN", "NI", "NB", "NV", "PN", "PL", "LC", "UC"}', Dims="1..5",
                LabDims="1..3", Sprs='{"sigma", "tril", "cov", "prec"}',
                Shs="{1, 2, 4, 64}", Lhs="{1, 2, 4, 64}", Pqs="0..4", CostKinds=FAR_KINDS,
                Seeds="{0, -1, 3, 4}", Ms="{1, 2, 3, 9}", Ns="{1, 2, 3, 12}")

MODES_INV = ["UserDecidesTrainable", "NoLossBeforeBuild"]
MODES_OPS = """{"setrg", "setmode", "build", "train", "train0", "eval", "forward",
   "backward", "guess", "broken"}"""

STOP_INV = ["Patient", "NeverWithoutTolerance", "BudgetBinds", "MonitorOrder"]

SOLVER_INV = ["EndsAsAllowed", "NoNoise"]

OPTIMIZERS = '{"prodigy", "mechanic", "adamw", "lbfgs"}'

GOOD_MARKS = """{<<>>, <<"mwu">>, <<"mwu_simplex">>, <<"non_neg">>, <<"max">>, <<"bound">>,
   <<"bound", "non_neg">>}"""
MARK_SETS = GOOD_MARKS[:-1] + """, <<"mwu", "mwu_simplex">>, <<"mwu", "non_neg">>,
   <<"mwu", "max">>, <<"mwu", "bound">>, <<"mwu_simplex", "non_neg">>,
   <<"mwu_simplex", "max">>, <<"mwu_simplex", "bound">>, <<"non_neg", "max">>,
   <<"max", "bound">>}"""

HYPER_COSTS = """{<<1, 1, "full">>, <<1, 2, "full">>, <<1, 0, "full">>, <<2, 2, "full">>,
   <<2, 2, "default">>, <<1, 2, "short">>}"""
HYPER_INV = ["Regularised", "Homogeneous", "UserValuesWin"]

ALL_SOLVERS = '{"post", "torch", "pre", "dedicated"}'
ALL_CLASSES = '{"lr", "log", "nv", "pf", "wb"}'
CLASSIF_INV = ["SomeLabelWins", "WinnerHasTheOdds"]

DECIDE_INV = ["RiskIsMonotone", "DistanceIsPositive", "AverageBetween"]
USAGE_INV = ["NeverTrained", "TrainedByAFit", "Settled"]
HISTORY_INV = ["Isolated", "KeysAreOwn"]
ORDER_INV = ["AtASample", "Monotone", "SampleAverage"]
FOLIO_INV = ["ThresholdIsAReturn", "PiecesAreTheLoss"]
SUPPORT_INV = ["SameWithoutBounds", "BoundsHelp", "WorseThanAverage", "AtTheBottom"]
REG_INV = ["NormsAreNorms", "Convex"]


def estim(**over):
    """Configurations of the estimators."""
    k = dict(Classes='{"lr"}', Solvers='{"post"}', Rhos="{<<1, 2>>}", NZs="{3}", Seeds="{0}",
             Budgets="{<<1, 2>>}", Lrs="{0}", Epss="{0}", Sigs="{0}", L2s="{0}",
             Icpts="{TRUE}", Costs="{<<2, 2>>}", KUs="{<<5, 7>>}", Etas="{<<1, 1>>}",
             Alphas="{<<1, 2>>}", Supps="{0}")
    k.update(over)
    return k


CHECKS = {
    "D01": dict(
        harness="dual", trace="DualLossTrace",
        runs=[
            dict(name="D01_mc", base="DualLoss", mode="mc", inv=DUAL_INV,
                 consts=dual()),
            dict(name="D01_sim", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(500, 5000), consts=dual(**DUAL_WIDE)),
            dict(name="D01_far", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(400, 4000), consts=dual(**DUAL_FAR)),
            dict(name="D01_big", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(400, 4000), consts=dual(**DUAL_BIG)),
        ]),
    "D02": dict(
        harness="dual", trace="DualLossTrace",
        runs=[
            dict(name="D02_mc", base="DualLoss", mode="mc", inv=DUAL_INV,
                 consts=dual(R2s="{0, -1}", Reds='{"mean", "sum", "none"}', Offs="{-2}",
                             LabOffs="{1}", Ns="{1}", Lams="{0, 2}", L2s="{2}",
                             Coords="{1}", Sizes="{1, 2}", Reuse="TRUE", Steps="2")),
            dict(name="D02_sim", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(600, 6000),
                 consts=dual(**{**DUAL_WIDE, **dict(
                     R2s="{0, -1}", ISs="{TRUE, FALSE}", Resets="{TRUE, FALSE}",
                     Reuse="TRUE", Steps="3", RadScales="{0, 2, 6}",
                     Lams="{0, 1, 900}")})),
            dict(name="D02_big", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(200, 2000),
                 consts=dual(**{**DUAL_BIG, **dict(
                     R2s="{0, -1}", ISs="{TRUE, FALSE}", Resets="{TRUE, FALSE}",
                     Reuse="TRUE", Steps="2", RadScales="{0, 4}", Lams="{0, 20}",
                     Biases="{0, 1, 300}", L2s="{0, 2}")})),
        ]),
    "D03": dict(
        harness="dual", trace="DualLossTrace",
        runs=[
            dict(name="D03_mc", base="DualLoss", mode="mc", inv=DUAL_INV,
                 consts=dual(Costs=SQ_COSTS, ISs="{TRUE}", L2s="{0}", Weights="{0, 4}",
                             Quads="{0, 2}", LabCoefs="{6}", LabOffs="{0, 1}",
                             Reds='{"mean"}', Offs="{-1, 1}", Coords="{0}",
                             Sizes="{1}", Lams="{0, 1}", R2s="{2}")),
            dict(name="D03_sim", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(2400, 14000),
                 consts=dual(**{**DUAL_WIDE, **dict(
                     Costs=SQ_COSTS[:-1] + ", " + ALL_COSTS[1:], ISs="{TRUE}",
                     Weights="{-4, -2, 2, 4}", Quads="{0, 1, 2}",
                     LabCoefs="{-6, 0, 2, 4}", Ss="{1, 2}", Lams="0..2",
                     Floats="{TRUE, FALSE}")})),
            # displacements of a hundred
            dict(name="D03_far", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(300, 3000),
                 consts=dual(**{**DUAL_WIDE, **dict(
                     Costs=SQ_COSTS, ISs="{TRUE}", Weights="{-240, 0, 320}", Quads="{0}",
                     LabCoefs="{-240, 320}", Lams="{1, 2}", Ns="{1, 2}", E0s="{1}",
                     Coords="{0, 1}", Offs="{0, 1}", LabOffs="{0, 1}", L2s="{0}",
                     RadScales="{0, 3}")})),
        ]),
    "D05": dict(
        harness="dual", trace="DualLossTrace",
        runs=[
            dict(name="D05_mc", base="DualLoss", mode="mc", inv=DUAL_INV,
                 consts=dual(Reds='{"mean"}', L2s="{0}", Coords="{0, 1}", Offs="{1, 2}",
                             LabOffs="{0, 1}", Ns="{1}", Lams="{1}", Sizes="{1}", R2s="{2}",
                             Resets="{TRUE, FALSE}", Reuse="TRUE", Steps="3")),
            dict(name="D05_sim", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(500, 5000),
                 consts=dual(**{**DUAL_WIDE, **dict(
                     Quads="{0, 1}", R2s="{2}", Lams="0..1", Resets="{TRUE, FALSE}",
                     Reuse="TRUE", Steps="5", Reds='{"mean"}', L2s="{0}")})),
            dict(name="D05_pre", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(500, 5000),
                 consts=dual(**{**DUAL_WIDE, **dict(
                     Schemes='{"pre"}', Sizes="{2}", LabCoefs="{-2, 1}",
                     Quads="{0}", R2s="{2}", Lams="0..1", Ns="1..2",
                     Reuse="TRUE", Steps="5", Reds='{"mean"}', L2s="{0}")})),
            dict(name="D05_big", base="DualLoss", mode="sim", inv=DUAL_INV,
                 num=(150, 1500),
                 consts=dual(**{**DUAL_BIG, **dict(
                     R2s="{2}", Resets="{TRUE, FALSE}", Reuse="TRUE", Steps="3",
                     Reds='{"mean"}')})),
        ]),
    "C01": dict(
        harness="costs", trace="CostsTrace",
        runs=[
            dict(name="C01_mc", base="Costs", mode="mc", inv=COST_INV,
                 consts=dict(Ids='{"NC", "NLC"}', Typs="{0, 1, 2}", Pows="{1, 2}",
                             Kappas="{<<0, 1>>, <<1, 1>>, <<1, 2>>, <<-1, 1>>, <<-2, 1>>}",
                             Dims="{1}", LabDims="{1}", Coords="{-1, 0, 2}",
                             LabCoords="{0, 1}", Ms="{1}", Ns="{1}",
                             Layouts='{"flat", "batch", "stack"}', Units="{0}",
                             Floats="{FALSE}")),
            dict(name="C01_sim", base="Costs", mode="sim", inv=COST_INV,
                 num=(3000, 20000),
                 consts=dict(Ids='{"NC", "NLC"}', Typs="0..4", Pows="1..4",
                             Kappas="{<<0, 1>>, <<1, 1>>, <<1, 2>>, <<3, 1>>, <<9, 1>>,"
                                    " <<-1, 1>>, <<-2, 1>>, <<-8, 0>>, <<-6, 0>>, <<-3, 0>>, <<3, 0>>,"
                                    " <<6, 0>>, <<8, 0>>}",
                             Dims="1..3", LabDims="1..2", Coords="-3..4",
                             LabCoords="-2..2", Ms="{1, 2, 3, 7}", Ns="{1, 2, 3, 6}",
                             Layouts='{"flat", "batch", "stack"}', Units="{-4, 0, 4}",
                             Floats="{TRUE, FALSE}")),
        ]),
    "C02": dict(
        harness="codes", trace="CodesTrace",
        runs=[
            dict(name="C02_mc", base="Codes", mode="mc", inv=["Total", "Agree"],
                 consts=dict(Engines='{"t", "n", "", "T"}', Ids='{"NC", "NLC", "NL", "nc"}',
                             Pows='{"1", "2", "0.5", "2.0", "3", "x", ""}',
                             Typs='{"1", "2", "inf", "3", "1.0", "y"}',
                             Kaps='{"0", "1", "0.5", "inf", "1e2", "", "k"}',
                             Extras='{"1", ""}',
                             Decoders='{"str", "parse", "robustify"}', Lengths="1..5"),
                 thorough=dict(Lengths="1..6")),
            dict(name="C02_long", base="Codes", mode="mc", inv=["Total", "Agree"],
                 consts=dict(Engines='{"t", "n"}', Ids='{"NC", "NLC"}',
                             Pows='{"1", "2"}', Typs='{"1", "2"}',
                             Kaps='{"1", ""}', Extras='{"1", "", "x"}',
                             Decoders='{"str", "parse", "robustify"}', Lengths="6..7")),
        ]),
    "L01": dict(
        harness="wrap", trace="WrapTrace",
        runs=[
            dict(name="L01_mc", base="Wrap", mode="mc", inv=["PenaltyUniform"],
                 consts=dict(Kinds='{"module", "function"}', Ks="1..2", Labs="0..2",
                             Dims="1..2", Trs="{0, 2}", L2s="{0, 2}", Reduces="{TRUE, FALSE}",
                             Layouts='{"point", "batch", "stack", "stacks"}', Ms="{1}",
                             Ns="{1}", Qs="{1}", Weights="{-1}", Coords="{0, 2}",
                             LabCoords="{1}", Floats="{FALSE}", Announced='{"none"}')),
            dict(name="L01_sim", base="Wrap", mode="sim", inv=["PenaltyUniform"],
                 num=(2800, 20000),
                 consts=dict(Kinds='{"module", "function"}', Ks="{1, 2, 3, 5, 8}", Labs="0..3",
                             Dims="{1, 2, 3, 6}", Trs="{0, 2, -1, 3}", L2s="{0, -3, 1, 16, 4}",
                             Reduces="{TRUE, FALSE}",
                             Layouts='{"point", "batch", "stack", "stacks"}',
                             Ms="{1, 2, 3, 10}", Ns="{1, 2, 3, 7}", Qs="1..3",
                             Weights="-2..3", Coords="-3..3",
                             LabCoords="-2..2", Floats="BOOLEAN", Announced='{"none"}')),
            dict(name="L01_refused", base="Wrap", mode="mc", inv=["PenaltyUniform"],
                 consts=dict(Kinds='{"module"}', Ks="{1}", Labs="0..1",
                             Dims="{1}", Trs="{0, 2}", L2s="{0}", Reduces="{TRUE, FALSE}",
                             Layouts='{"batch"}', Ms="{2}",
                             Ns="{1}", Qs="{1}", Weights="{1}", Coords="{2}",
                             LabCoords="{1}", Floats="{FALSE}", Announced='{"mean", "sum"}')),
        ]),
    "L02": dict(
        harness="losses", trace="LossesTrace",
        runs=[
            dict(name="L02_mc", base="Losses", mode="mc", inv=LOSS_INV,
                 consts=dict(Funs=LOSSES, Dims="{1}", L2s="{0, 3, -2}", Weights="{-1, 2}",
                             Biases="{0, 1}", Coords="{-3, 0, 1, 2}", Ys="{-1, 2}",
                             Layouts='{"batch", "stack"}', Ms="{1}", Ns="{1}",
                             Prices="{2, 3}", Etas="{2}", Taus="{-1, 1}",
                             Alphas="{<<1, 4>>}", Floats="{FALSE}")),
            dict(name="L02_sim", base="Losses", mode="sim", inv=LOSS_INV,
                 num=(2500, 20000),
                 consts=dict(Funs=LOSSES, Dims="{1, 2, 3, 5}", L2s="{0, 1, 16, 4, -2, -6}",
                             Weights="-3..3", Biases="-2..2", Coords="-4..5", Ys="-2..3",
                             Layouts='{"batch", "stack"}', Ms="{1, 2, 3, 9}",
                             Ns="{1, 2, 3, 5}",
                             Prices="1..9", Etas="0..3", Taus="-2..2",
                             Alphas="{<<1, 4>>, <<1, 2>>, <<1, 1>>, <<3, 4>>, <<1, 8>>}",
                             Floats="BOOLEAN")),
            dict(name="L02_far", base="Losses", mode="sim", inv=LOSS_INV,
                 num=(1200, 8000),
                 consts=dict(Funs=LOSSES, Dims="{1, 2}", L2s="{0, 1}",
                             Weights="{-50, -13, -1, 0, 1, 2, 11, 20}", Biases="{-25, 0, 12}",
                             Coords="{-60, -9, -2, 0, 1, 3, 12, 45}", Ys="{-25, -1, 0, 7}",
                             Layouts='{"batch", "stack"}', Ms="{1, 2, 3}", Ns="{1, 2}",
                             Prices="{1, 5, 14}", Etas="{0, 1, 6}", Taus="{-20, 0, 15}",
                             Alphas="{<<1, 20>>, <<1, 50>>, <<19, 20>>}",
                             Floats="BOOLEAN")),
        ]),
    "S01": dict(
        harness="samplers", trace="SamplersTrace",
        runs=[
            dict(name="S01_mc", base="Samplers", mode="mc", inv=SAMPLER_INV,
                 consts=dict(Fams='{"NN", "NB", "LC"}', Dims="{2}", LabDims="{1}",
                             Sprs='{"sigma"}', Shs="{4}", Lhs="{1}", Pqs="{1}",
                             CostKinds='{<<"NLC", 1, 1, 2>>}', Seeds="{0, -1, 3}", Ms="{1}",
                             Ns="{2}", Steps="2", Stats="FALSE"),
                 thorough=dict(Steps="3")),
            dict(name="S01_sim", base="Samplers", mode="sim", inv=SAMPLER_INV,
                 num=(2500, 12000), consts=dict(SAMPLERS, Steps="5", Stats="FALSE")),
            dict(name="S01_stat", base="Samplers", mode="sim", inv=SAMPLER_INV,
                 num=(1600, 6000), consts=dict(SAMPLERS, Steps="3", Stats="TRUE")),
        ]),
    "S02": dict(
        harness="density", trace="DensityTrace",
        runs=[
            dict(name="S02_mc", base="Density", mode="mc", inv=["Even", "PeakAtCentre"],
                 consts=dict(Fams='{"NN", "NI", "NB", "NV", "PN", "PL", "LC", "UC"}',
                             Dims="{1, 2}", LabDims="{1}", Sprs='{"sigma", "cov"}',
                             Shs="{1, 4}", Lhs="{2}", CostKinds=COST_KINDS, Ms="{1}",
                             Ns="{1}", Coords="{-1}", Offs="{0, 2}", Moves="0..1")),
            dict(name="S02_sim", base="Density", mode="sim", inv=["Even", "PeakAtCentre"],
                 num=(3000, 20000),
                 consts=dict(Fams='{"NN", "NI", "NB", "NV", "PN", "PL", "LC", "UC"}',
                             Dims="1..6", LabDims="1..3",
                             Sprs='{"sigma", "tril", "cov", "prec"}',
                             Shs="{1, 2, 4, 32}", Lhs="{1, 2, 4, 32}", CostKinds=COST_KINDS,
                             Ms="{1, 2, 3, 5}", Ns="{1, 2, 3, 5}", Coords="-3..3", Offs="-3..3",
                             Moves="0..2")),
        ]),
    "D04": dict(
        harness="modes", trace="ModesTrace",
        runs=[
            dict(name="D04_mc", base="Modes", mode="mc", inv=MODES_INV, props=["Untouched"],
                 consts=dict(Schemes='{"pre", "post"}', ISs="BOOLEAN", R2s="{1}",
                             Labs="{TRUE}", Costs='{"t-NLC-2-2"}', Params="{1}",
                             Modules="{3}", Steps="4", Ops=MODES_OPS)),
            dict(name="D04_sim", base="Modes", mode="sim", inv=MODES_INV, props=[],
                 num=(2400, 14000),
                 consts=dict(Schemes='{"pre", "post"}', ISs="BOOLEAN", R2s="{0, 1, 3}",
                             Labs="BOOLEAN", Costs='{"t-NC-2-2", "t-NC-1-1"}', Params="1..4",
                             Modules="1..6", Steps="8", Ops=MODES_OPS)),
            dict(name="D04_lab", base="Modes", mode="sim", inv=MODES_INV, props=[],
                 num=(800, 6000),
                 consts=dict(Schemes='{"pre", "post"}', ISs="BOOLEAN", R2s="{0, 1, 3}",
                             Labs="{TRUE}", Costs='{"t-NLC-2-2", "t-NLC-1-1"}', Params="1..4",
                             Modules="1..6", Steps="8", Ops=MODES_OPS)),
        ]),
    "O01": dict(
        harness="stoprule", trace="StopRuleTrace",
        runs=[
            dict(name="O01_mc", base="StopRule", mode="mc", inv=STOP_INV,
                 consts=dict(Orders="{2}", Tols="{0, 2}", Mons='{"both", "one", "t", "l"}',
                             Modes='{"rel", "abs"}', Metrics='{"grad", "param"}',
                             Budgets="{2}", Forms='{"pair"}', Coords="{0}", Lams="{0, 3}",
                             Calls="3", Runs="1", Scales="{0}")),
            dict(name="O01_sim", base="StopRule", mode="sim", inv=STOP_INV,
                 num=(3000, 30000),
                 consts=dict(Orders="0..2", Tols="{-1, 0, 1, 2, 4, 8}",
                             Mons="Both \\cup Either \\cup OnlyT \\cup OnlyL",
                             Modes='{"rel", "abs"}', Metrics='{"grad", "param"}',
                             Budgets="{2, 4, 50}", Forms='{"pair", "int"}', Coords="-3..3",
                             Lams="0..4", Calls="7", Runs="2", Scales="{-12, 0, 10, 24}")),
            dict(name="O01_near", base="StopRule", mode="sim", inv=STOP_INV,
                 num=(3000, 30000),
                 consts=dict(Orders="0..2", Tols="{2, 4}",
                             Mons="Both \\cup Either \\cup OnlyT \\cup OnlyL",
                             Modes='{"rel", "abs"}', Metrics='{"grad", "param"}',
                             Budgets="{50}", Forms='{"pair"}', Coords="0..1",
                             Lams="0..2", Calls="6", Runs="2", Scales="{0, 24}")),
            dict(name="O01_long", base="StopRule", mode="sim", inv=STOP_INV,
                 num=(60, 500), depth=120,
                 consts=dict(Orders="0..2", Tols="{-1, 0, 2, 4}",
                             Mons="Both \\cup Either \\cup OnlyT \\cup OnlyL",
                             Modes='{"rel", "abs"}', Metrics='{"grad", "param"}',
                             Budgets="{65, 80}", Forms='{"pair", "int"}', Coords="-3..3",
                             Lams="0..4", Calls="90", Runs="1", Scales="{0}")),
        ]),
    "O02": dict(
        harness="solver", trace="SolverTrace",
        runs=[
            dict(name="O02_mc", base="Solver", mode="mc", inv=SOLVER_INV,
                 consts=dict(Schemes='{"pre", "post"}', Labs="{TRUE}", Pows="{2}", Rs="{0, 1}",
                             IntBudgets="{4, 7}", PairBudgets="{<<0, 3>>, <<2, 4>>}",
                             ISs="{FALSE}", Metrics='{"grad", "param"}', StopAts="0..4",
                             NanAts="{0, 2}", InfAts="{0}", Sizes="{1}", Dims="{1}", Coords="{1}",
                             Offs="{2}", Labels="{1}", Weights="{2}", Lams="{1}", Cycle="1",
                             Twice="BOOLEAN")),
            dict(name="O02_sim", base="Solver", mode="sim", inv=SOLVER_INV, num=(2400, 20000),
                 consts=dict(Schemes='{"pre", "post"}', Labs="BOOLEAN", Pows="{1, 2}",
                             Rs="0..2", IntBudgets="{1, 3, 4, 7, 10, 20, 33}",
                             PairBudgets="{<<0, 1>>, <<0, 5>>, <<1, 1>>, <<3, 2>>, <<5, 4>>, <<12, 30>>}",
                             ISs="BOOLEAN", Metrics='{"grad", "param"}', StopAts="{0, 0, 1, 2, 3}",
                             NanAts="{0}", InfAts="{0}", Sizes="1..3", Dims="{1, 2}", Coords="-2..2",
                             Offs="{-2, -1, 1, 2}", Labels="-2..2", Weights="-2..2",
                             Lams="0..3", Cycle="5", Twice="BOOLEAN")),
            dict(name="O02_tiny", base="Solver", mode="sim", inv=SOLVER_INV, num=(300, 3000),
                 consts=dict(Schemes='{"pre", "post"}', Labs="BOOLEAN", Pows="{1, 2}",
                             Rs="{-5}", IntBudgets="{3, 7}", PairBudgets="{<<0, 5>>, <<3, 2>>}",
                             ISs="BOOLEAN", Metrics='{"grad", "param"}', StopAts="{0, 2}",
                             NanAts="{0}", InfAts="{0}", Sizes="1..3", Dims="{1, 2}", Coords="-2..2",
                             Offs="{-2, -1, 1, 2}", Labels="-2..2", Weights="-2..2",
                             Lams="0..3", Cycle="5", Twice="BOOLEAN")),
            dict(name="O02_nan", base="Solver", mode="sim", inv=SOLVER_INV, num=(400, 4000),
                 consts=dict(Schemes='{"pre", "post"}', Labs="BOOLEAN", Pows="{1, 2}",
                             Rs="0..2", IntBudgets="{4, 7}", PairBudgets="{<<0, 5>>, <<3, 2>>}",
                             ISs="BOOLEAN", Metrics='{"grad", "param"}', StopAts="{0, 1, 2, 3}",
                             NanAts="{1, 2, 3}", InfAts="{0}", Sizes="1..3", Dims="{1, 2}", Coords="-2..2",
                             Offs="{-2, -1, 1, 2}", Labels="-2..2", Weights="-2..2",
                             Lams="0..3", Cycle="5", Twice="{FALSE}")),
            dict(name="O02_inf", base="Solver", mode="sim", inv=SOLVER_INV, num=(300, 3000),
                 consts=dict(Schemes='{"pre", "post"}', Labs="BOOLEAN", Pows="{1, 2}",
                             Rs="0..2", IntBudgets="{4, 7}", PairBudgets="{<<0, 5>>, <<3, 4>>}",
                             ISs="{FALSE}", Metrics='{"grad", "param"}', StopAts="{0, 3}",
                             NanAts="{0}", InfAts="{1, 2, 3}", Sizes="1..3", Dims="{1, 2}",
                             Coords="-2..2", Offs="{-2, -1, 1, 2}", Labels="-2..2",
                             Weights="-2..2", Lams="0..3", Cycle="5", Twice="{FALSE}")),
        ]),
    "O03": dict(
        harness="multiplier", trace="MultiplierTrace",
        runs=[
            dict(name="O03_mc", base="Multiplier", mode="mc", inv=["NonNegative"],
                 props=["Descends"],
                 consts=dict(Kinds=OPTIMIZERS, Lrs="{0, 1}", Rs="{0, 1}", Pows="{2}",
                             ISs="{FALSE}", Pushes="{-4, 2, 5}", StepSizes="{0, 2}",
                             Steps="3", Ops='{"push", "train", "guess", "zero"}')),
            dict(name="O03_sim", base="Multiplier", mode="sim", inv=["NonNegative"],
                 num=(1200, 10000),
                 consts=dict(Kinds=OPTIMIZERS, Lrs="{-2, 0, 1, 3}", Rs="{0, 1, 4, 40}",
                             Pows="{1, 2}", ISs="BOOLEAN", Pushes="{-6, -3, -1, 1, 2, 3, 4, 6}",
                             StepSizes="0..3", Steps="8",
                             Ops='{"push", "train", "guess", "solve", "zero"}')),
        ]),
    "O04": dict(
        harness="hybrid", trace="HybridTrace",
        runs=[
            dict(name="O04_mc", base="Hybrid", mode="mc", inv=["OnItsSet", "AscentMirrors"],
                 consts=dict(Opts='{"sgd", "adam"}', MarkSets=MARK_SETS, Lrs="{1}", Sizes="{2}",
                             Inits="{1}", Grads="{-250, 2}", NGroups="{1}",
                             Steps="2", Closures="BOOLEAN",
                             Shapes='{"vec", "col"}')),
            dict(name="O04_sim", base="Hybrid", mode="sim", inv=["OnItsSet", "AscentMirrors"],
                 num=(4000, 30000),
                 consts=dict(Opts='{"sgd", "adam"}', MarkSets=GOOD_MARKS, Lrs="{1, 2}",
                             Sizes="1..5", Inits="0..2", Grads="{-250, -100, -3, 0, 1, 2, 101}",
                             NGroups="1..3", Steps="3", Closures="BOOLEAN",
                             Shapes='{"vec", "col"}')),
            dict(name="O04_bad", base="Hybrid", mode="sim", inv=["OnItsSet", "AscentMirrors"],
                 num=(800, 5000),
                 consts=dict(Opts='{"sgd", "adam"}', MarkSets=MARK_SETS, Lrs="{1, 2}",
                             Sizes="1..3", Inits="0..2", Grads="{-250, -3, 0, 1, 101}",
                             NGroups="1..2", Steps="1", Closures="BOOLEAN",
                             Shapes='{"vec", "col"}')),
        ]),
    "H01": dict(
        harness="hyper", trace="HyperTrace",
        runs=[
            dict(name="H01_mc", base="Hyper", mode="mc", inv=HYPER_INV,
                 consts=dict(Rhos="{<<0, 1>>, <<1, 128>>, <<1, 2>>, <<3, 1>>}", Costs=HYPER_COSTS,
                             Labs="BOOLEAN", Epss="{0, 3}", Sigs="{0, 5}",
                             Ns="{3}", Seeds="{42}", Budgets="{<<>>}", ISs="BOOLEAN",
                             Schemes='{"pre", "post"}', Adapts='{"default"}', Lrs="{0}",
                             Doubles="{FALSE}", Reds='{"default"}')),
            dict(name="H01_sim", base="Hyper", mode="sim", inv=HYPER_INV, num=(2500, 20000),
                 consts=dict(Rhos="""{<<0, 1>>, <<1, 256>>, <<1, 100>>, <<1, 10>>, <<1, 8>>,
                                      <<1, 2>>, <<2, 3>>, <<1, 1>>, <<3, 2>>, <<4, 1>>,
                                      <<7, 1>>, <<50, 1>>, <<1, 900>>, <<1, 5000>>,
                                      <<1, 100000>>, <<700, 1>>}""",
                             Costs=HYPER_COSTS, Labs="BOOLEAN", Epss="{0, 1, 8, -5}",
                             Sigs="{0, 1, 8, 40, 1600, -30}", Ns="{1, 2, 7, 10, 64}", Seeds="{0, 1, 7, 42, 123}",
                             Budgets="{<<>>, <<1>>, <<50>>, <<5, 7>>, <<0, 3>>, <<100, 10>>,"
                                     " <<200, 2800>>, <<4000>>}", ISs="BOOLEAN",
                             Schemes='{"pre", "post"}',
                             Adapts='{"default", "none", "prodigy"}', Lrs="{0, 1, 2, 8}",
                             Doubles="BOOLEAN", Reds='{"default", "none", "mean", "sum"}')),
        ]),
    "E03": dict(
        harness="classif", trace="ClassifTrace",
        runs=[
            dict(name="E03_mc", base="Classif", mode="mc", inv=CLASSIF_INV,
                 consts=estim(Classes='{"log"}', Rhos="{<<1, 4>>}", Solvers=ALL_SOLVERS,
                              NClasses="{2, 3}", Alphabets='{"pm", "str"}', Dims="{1}",
                              Sizes="{3}", Coords="{-1, 2}", NQueries="{1}", Units="{<<1, 1>>}")),
            dict(name="E03_sim", base="Classif", mode="sim", inv=CLASSIF_INV, num=(500, 4000),
                 consts=estim(Classes='{"log"}', Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}",
                              Solvers=ALL_SOLVERS, Seeds="0..3", Icpts="BOOLEAN",
                              Budgets="{<<1, 2>>, <<4>>}", Lrs="{0, 2, 8}", L2s="{0, 2}",
                              NClasses="2..4",
                              Alphabets="""{"pm", "ints", "far", "neg", "str", "words",
                                            "floats", "bool"}""",
                              Dims="1..3", Sizes="4..6", Coords="-3..3", NQueries="{1, 3, 4}",
                              Units="{<<1, 1>>, <<1, 3>>, <<5, 2>>}")),
            dict(name="E03_many", base="Classif", mode="sim", inv=CLASSIF_INV, num=(200, 1500),
                 consts=estim(Classes='{"log"}', Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}",
                              Solvers=ALL_SOLVERS, Seeds="{0, 1, 321}", Icpts="BOOLEAN",
                              Budgets="{<<1, 2>>, <<4>>, <<20, 10>>}", Lrs="{0, 2, 8}",
                              L2s="{0, 2}", NZs="{1, 3}", NClasses="{2, 5, 7, 12}",
                              Alphabets="""{"pm", "ints", "far", "neg", "str", "words",
                                            "floats"}""",
                              Dims="1..4", Sizes="12..15", Coords="-9..9",
                              NQueries="{9, 20}",
                              Units="{<<1, 1>>, <<1, 10>>, <<2, 7>>, <<3, 1>>}")),
        ]),
    "E04": dict(
        harness="regress", trace="RegressTrace",
        runs=[
            dict(name="E04_mc", base="Regress", mode="mc", inv=[],
                 consts=estim(Classes='{"lr"}', Rhos="{<<1, 4>>}", Solvers=ALL_SOLVERS,
                              Icpts="BOOLEAN", Dims="{1, 2}", Sizes="{2}", Coords="{-1, 2}",
                              Targets="{1}", NQueries="{1}", Units="{<<1, 1>>}")),
            dict(name="E04_sim", base="Regress", mode="sim", inv=[], num=(1000, 8000),
                 consts=estim(Classes='{"lr"}', Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}",
                              Solvers=ALL_SOLVERS, Seeds="0..3", Icpts="BOOLEAN",
                              Budgets="{<<1, 2>>, <<4>>, <<0, 1>>}", Lrs="{0, 2, 8}",
                              L2s="{0, 2}", Costs="{<<2, 2>>, <<1, 2>>, <<1, 1>>}", Dims="1..3",
                              Sizes="2..5", Coords="-3..3", Targets="-4..4",
                              NQueries="{1, 2, 3}",
                              Units="{<<1, 1>>, <<1, 3>>, <<1001, 1>>, <<99991, 1>>}")),
            dict(name="E04_many", base="Regress", mode="sim", inv=[], num=(300, 3000),
                 consts=estim(Classes='{"lr"}', Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}",
                              Solvers=ALL_SOLVERS, Seeds="{0, 1, 321}", Icpts="BOOLEAN",
                              Budgets="{<<1, 2>>, <<4>>, <<20, 10>>}", Lrs="{0, 2, 8}",
                              L2s="{0, 2}", NZs="{1, 3}", Costs="{<<2, 2>>, <<2, 2, 8>>}",
                              Dims="{2, 5, 7}", Sizes="8..13", Coords="-9..9",
                              Targets="-20..20", NQueries="{9, 20}",
                              Units="{<<1, 1>>, <<1, 10>>, <<2, 7>>, <<7001, 3>>}")),
        ]),
    "E05": dict(
        harness="decide", trace="DecideTrace",
        runs=[
            dict(name="E05_mc", base="Decide", mode="mc", inv=DECIDE_INV,
                 consts=estim(Classes='{"nv", "pf", "wb"}', Solvers=ALL_SOLVERS, Dims="{2}",
                              Sizes="{2}", Demands="{1, 4}", Coords="{-1, 2}", Weights="{2}",
                              Dens="{1, 2}", EvalWeights="{2}", NEvals="{1}", EvalSizes="{2}",
                              Costs="{<<2, 2>>}", Rhos="{<<1, 10>>}")),
            dict(name="E05_sim", base="Decide", mode="sim", inv=DECIDE_INV, num=(1200, 8000),
                 consts=estim(Classes='{"nv", "pf", "wb"}', Solvers=ALL_SOLVERS,
                              Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}", Seeds="0..3",
                              Budgets="{<<1, 2>>, <<4>>, <<3, 8>>}", Lrs="{0, 2, 8}",
                              Epss="{0, 1, 8}", Sigs="{0, 4}", L2s="{0, 2}",
                              Costs="{<<2, 2>>, <<1, 2>>, <<1, 1>>}",
                              KUs="{<<5, 7>>, <<1, 4>>, <<3, 4>>}",
                              Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}",
                              Alphas="{<<1, 20>>, <<1, 4>>, <<1, 2>>, <<1, 1>>}", Dims="1..3",
                              Sizes="1..4", Demands="0..6", Coords="-3..3", Weights="1..4",
                              Dens="{1, 4}", EvalWeights="-2..4", EvalSizes="1..4", NEvals="{1, 2, 3}")),
            dict(name="E05_many", base="Decide", mode="sim", inv=DECIDE_INV, num=(300, 3000),
                 consts=estim(Classes='{"nv", "pf", "wb"}', Solvers=ALL_SOLVERS,
                              Rhos="{<<0, 1>>, <<1, 10>>, <<2, 1>>}", Seeds="{0, 321}",
                              Lrs="{0, 2}", NZs="{1, 3}", Budgets="{<<1, 2>>, <<20, 10>>}",
                              Costs="{<<2, 2>>, <<1, 2>>, <<1, 1>>}",
                              KUs="{<<5, 7>>, <<1, 40>>, <<30, 4>>}",
                              Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<10, 1>>}",
                              Alphas="{<<1, 5>>, <<1, 2>>, <<19, 20>>}", Dims="1..6",
                              Sizes="{5, 12}", Demands="0..9", Coords="-4..4", Weights="1..4",
                              Dens="{1, 1, 2}", EvalWeights="-9..9", EvalSizes="{12, 30}", NEvals="{1, 2}")),
        ]),
    "E06": dict(
        harness="alloc", trace="AllocTrace",
        runs=[
            dict(name="E06_mc", base="Decide", mode="mc", inv=DECIDE_INV,
                 consts=estim(Classes='{"pf"}', Solvers=ALL_SOLVERS, Dims="{2}", Sizes="{2}",
                              Demands="{1}", Coords="{-3, 2}", Weights="{1}", NEvals="{0}",
                              Dens="{1}", EvalWeights="{1}", EvalSizes="{1}",
                              Costs="{<<2, 2>>, <<1, 1>>}", Rhos="{<<0, 1>>, <<1, 4>>}",
                              Lrs="{0, 32}")),
            dict(name="E06_sim", base="Decide", mode="sim", inv=[], num=(1200, 10000),
                 consts=estim(Classes='{"pf"}', Solvers=ALL_SOLVERS,
                              Rhos="{<<0, 1>>, <<1, 100>>, <<1, 10>>, <<2, 1>>, <<20, 1>>}",
                              Seeds="0..3", NZs="{1, 3, 10}",
                              Budgets="{<<1, 2>>, <<4>>, <<3, 8>>, <<10, 40>>}",
                              Lrs="{0, 1, 8, 64}", Epss="{0, 1, 8}",
                              Costs="{<<2, 2>>, <<1, 2>>, <<1, 1>>, <<1, 0>>}",
                              Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<10, 1>>}",
                              Alphas="{<<1, 20>>, <<1, 2>>, <<1, 1>>}", Dims="1..5",
                              Sizes="1..5", Demands="{0}", Coords="-9..9", Weights="{1}",
                              Dens="{1}", EvalWeights="{1}", EvalSizes="{1}", NEvals="{0}")),
        ]),
    "E08": dict(
        harness="forms", trace="FormsTrace",
        runs=[
            dict(name="E08_mc", base="Forms", mode="mc", inv=["Exact"],
                 consts=estim(Classes='{"log", "lr"}', Solvers='{"dedicated"}', Boxes='{"array"}',
                              Types='{"f4", "i1", "u1", "b1"}', LabTypes='{"f8", "u1", "b1"}',
                              Layouts='{"c"}', Dims="{1}", Sizes="{2}", Low="0", High="1",
                              NQueries="{1}", NClasses="{2}", Dens="{1}", Params='{"python", "numpy64"}')),
            dict(name="E08_sim", base="Forms", mode="sim", inv=["Exact"], num=(1800, 12000),
                 consts=estim(Classes='{"lr", "log", "nv", "pf", "wb"}',
                              Solvers='{"post", "torch", "pre", "dedicated"}',
                              Rhos="{<<0, 1>>, <<1, 16>>, <<1, 2>>, <<2, 1>>}",
                              NZs="{1, 3}", Seeds="{0, 7}", Budgets="{<<2>>, <<1, 2>>, <<3, 4>>}",
                              Lrs="{0, 1}", Epss="{0, 1, 8}", L2s="{0, 2}",
                              Icpts="{TRUE, FALSE}", Costs="{<<1, 1>>, <<2, 2>>, <<1, 2>>}",
                              Boxes='{"array", "list", "frame"}',
                              Types='{"f8", "f4", "i8", "i4", "i1", "u1", "u4", "b1", "obj"}',
                              LabTypes='{"f8", "f4", "i8", "i1", "u1", "u4", "b1", "obj"}',
                              Layouts='{"c", "fortran", "strided", "reversed", "readonly"}',
                              Dims="1..3", Sizes="4..8", Low="-3", High="4", NQueries="1..4",
                              NClasses="{2, 3}", Dens="{1, 4}",
                              Params='{"python", "numpy64", "numpy32"}')),
            dict(name="E08_mixed", base="Forms", mode="sim", inv=["Exact"], num=(900, 6000),
                 consts=estim(Classes='{"lr", "log", "nv", "pf", "wb"}',
                              Solvers='{"post", "torch", "pre", "dedicated"}',
                              Rhos="{<<0, 1>>, <<1, 4>>, <<1, 1>>}", Budgets="{<<3>>, <<2, 3>>}",
                              Lrs="{1}", Icpts="{TRUE, FALSE}", Boxes='{"array", "frame"}',
                              Types='{"f8", "f4", "i8", "u1"}', LabTypes='{"f8", "f4", "i1"}',
                              Layouts='{"c"}', Dims="1..4", Sizes="6..12", Low="-4", High="5",
                              NQueries="2..6", NClasses="{2, 3}", Dens="{4, 16}",
                              Params='{"python", "numpy64"}')),
            dict(name="E08_layouts", base="Forms", mode="sim", inv=["Exact"], num=(500, 5000),
                 consts=estim(Classes='{"lr", "log", "nv", "pf", "wb"}',
                              Solvers='{"post", "torch", "pre", "dedicated"}',
                              Rhos="{<<0, 1>>, <<1, 2>>}", Budgets="{<<2>>, <<1, 2>>}",
                              Lrs="{1}", Icpts="{TRUE, FALSE}", Boxes='{"array"}',
                              Types='{"f8", "f4", "i8"}', LabTypes='{"f8", "i8"}',
                              Layouts='{"fortran", "strided", "reversed", "readonly"}',
                              Dims="1..3", Sizes="4..8", Low="-3", High="4", NQueries="2..4",
                              NClasses="{2, 3}", Dens="{1, 4}",
                              Params='{"python", "numpy64", "numpy32"}')),
        ]),
    "R01": dict(
        harness="robustorder", trace="RobustOrderTrace",
        runs=[
            dict(name="R01_mc", base="RobustOrder", mode="mc", inv=ORDER_INV,
                 consts=dict(Rhos="{<<0, 1>>, <<1, 4>>, <<1, 1>>}", KUs="{<<1, 3>>, <<5, 7>>}",
                             Sizes="{1, 2, 3}", Demands="{0, 1, 2, 5}", Units="{0}")),
            dict(name="R01_sim", base="RobustOrder", mode="sim", inv=ORDER_INV,
                 num=(2500, 20000),
                 consts=dict(Rhos="""{<<0, 1>>, <<1, 16>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<1, 1>>,
                                      <<5, 4>>, <<2, 1>>, <<3, 1>>}""",
                             KUs="{<<1, 2>>, <<1, 6>>, <<2, 5>>, <<5, 7>>, <<3, 4>>, <<4, 3>>}",
                             Sizes="1..6", Demands="0..12", Units="{-2, 0, 4}")),
            dict(name="R01_many", base="RobustOrder", mode="sim", inv=ORDER_INV,
                 num=(400, 4000),
                 consts=dict(Rhos="""{<<0, 1>>, <<1, 16>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<1, 1>>,
                                      <<5, 4>>, <<2, 1>>, <<3, 1>>}""",
                             KUs="{<<1, 2>>, <<1, 6>>, <<2, 5>>, <<5, 7>>, <<3, 4>>}",
                             Sizes="{9, 12, 16}", Demands="0..12", Units="{-2, 0, 4}")),
        ]),
    "R02": dict(
        harness="robustfolio", trace="RobustFolioTrace",
        runs=[
            dict(name="R02_mc", base="RobustFolio", mode="mc", inv=FOLIO_INV,
                 consts=dict(Rhos="{<<0, 1>>, <<1, 2>>}", Etas="{<<1, 1>>}",
                             Alphas="{<<1, 2>>}", Typs="{1, 2}", Dims="{2}", Sizes="{1, 2}",
                             Returns="{-1, 0, 2}", Units="{0}")),
            dict(name="R02_sim", base="RobustFolio", mode="sim", inv=FOLIO_INV,
                 num=(1200, 10000),
                 consts=dict(Rhos="{<<0, 1>>, <<1, 20>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}",
                             Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>>}",
                             Alphas="{<<1, 20>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}",
                             Typs="0..2", Dims="1..4", Sizes="1..5", Returns="-4..4",
                             Units="{0, 0, -2, 2}")),
            dict(name="R02_many", base="RobustFolio", mode="sim", inv=FOLIO_INV,
                 num=(300, 3000),
                 consts=dict(Rhos="{<<0, 1>>, <<1, 20>>, <<1, 2>>, <<3, 1>>}",
                             Etas="{<<1, 2>>, <<1, 1>>, <<5, 1>>}",
                             Alphas="{<<1, 5>>, <<1, 2>>, <<9, 10>>}", Typs="0..2",
                             Dims="{2, 5, 6}", Sizes="{6, 9, 12}", Returns="-4..4",
                             Units="{0, 1}")),
        ]),
    "R03": dict(
        harness="robustreg", trace="RobustRegTrace",
        runs=[
            dict(name="R03_mc", base="RobustReg", mode="mc", inv=REG_INV,
                 consts=dict(Classes='{"lr", "log"}', Rhos="{<<1, 4>>}", Icpts="BOOLEAN",
                             Dims="{1}", Sizes="{3}", Coords="{-1, 2}", Targets="{-1, 1}",
                             Units="{0}")),
            dict(name="R03_lin", base="RobustReg", mode="sim", inv=REG_INV, num=(800, 8000),
                 consts=dict(Classes='{"lr"}', Rhos="{<<0, 1>>, <<1, 10>>, <<1, 4>>, <<1, 1>>, <<3, 1>>}",
                             Icpts="BOOLEAN", Dims="1..3", Sizes="1..5", Coords="-3..3",
                             Targets="-4..4", Units="{0, 0, -1, 1}")),
            dict(name="R03_many", base="RobustReg", mode="sim", inv=REG_INV, num=(300, 3000),
                 consts=dict(Classes='{"lr", "log"}', Rhos="{<<1, 20>>, <<1, 4>>, <<1, 1>>}",
                             Icpts="BOOLEAN", Dims="1..5", Sizes="7..10", Coords="-3..3",
                             Targets="-4..4", Units="{0, 1}")),
            dict(name="R03_log", base="RobustReg", mode="sim", inv=REG_INV, num=(500, 5000),
                 consts=dict(Classes='{"log"}', Rhos="{<<1, 20>>, <<1, 10>>, <<1, 4>>, <<1, 1>>, <<3, 1>>}",
                             Icpts="BOOLEAN", Dims="1..3", Sizes="2..6", Coords="-3..3",
                             Targets="{-1, 1}", Units="{0, 0, -1, 1}")),
        ]),
    "R04": dict(
        harness="robustsupport", trace="RobustSupportTrace",
        runs=[
            dict(name="R04_mc", base="RobustSupport", mode="mc", inv=SUPPORT_INV,
                 consts=dict(Rhos="{<<0, 1>>, <<1, 2>>}", Etas="{<<1, 1>>}",
                             Alphas="{<<1, 2>>}", Typs="{0, 1}", Dims="{2}", Sizes="{1}",
                             Returns="{-1, 2}", Lows="{-1, 99}", Ups="{2, 99}", Scales="{1}",
                             Orders='{"lower first"}')),
            dict(name="R04_sim", base="RobustSupport", mode="sim", inv=SUPPORT_INV,
                 num=(900, 9000),
                 consts=dict(Rhos="{<<0, 1>>, <<1, 20>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}",
                             Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>>}",
                             Alphas="{<<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}", Typs="0..2",
                             Dims="1..4", Sizes="1..5", Returns="-4..4",
                             Lows="{-5, -4, -2, -1, 0, 99}", Ups="{1, 2, 4, 5, 99}",
                             Scales="{1, 2, 5}", Orders='{"lower first", "reversed", "twice"}')),
        ]),
    "E07": dict(
        harness="wiring", trace="WiringTrace",
        runs=[
            dict(name="E07_mc", base="Wiring", mode="mc", inv=["NothingLost"],
                 consts=estim(Classes=ALL_CLASSES, Solvers='{"post", "torch", "pre"}',
                              Dims="{2}", Sizes="{2}", Demands="{1}", Coords="{-1, 2}",
                              Targets="{1}", NClasses="{2}", Rules="{<<0, 0>>}", Epss="{0, 8}", Sigs="{0, 4}",
                              L2s="{0, 4}", Icpts="{TRUE}", Budgets="{<<2, 4>>}")),
            dict(name="E07_sim", base="Wiring", mode="sim", inv=["NothingLost"],
                 num=(900, 8000),
                 consts=estim(Classes=ALL_CLASSES, Solvers='{"post", "torch", "pre"}',
                              Rhos="{<<0, 1>>, <<1, 200>>, <<1, 10>>, <<1, 2>>, <<2, 1>>, <<30, 1>>}",
                              NZs="{1, 3, 10, 25}", Seeds="{0, 1, 7, 123, 40000}",
                              Icpts="BOOLEAN",
                              Budgets="{<<1, 2>>, <<5>>, <<3, 4>>, <<0, 3>>}",
                              Lrs="{0, 1, 4}", Epss="{0, -5, 1, 8, 80}", Sigs="{0, 2, 8, 80}",
                              L2s="{0, 2, 8, 80}",
                              Costs="""{<<2, 2>>, <<1, 2>>, <<1, 1>>, <<1, 0>>, <<2, 2, 1>>,
                                        <<2, 2, 12>>, <<1, 2, 6>>, <<1, 1, 2>>}""",
                              KUs="{<<5, 7>>, <<1, 4>>, <<2, 3>>, <<1, 50>>}",
                              Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}",
                              Alphas="{<<1, 20>>, <<1, 4>>, <<1, 2>>, <<1, 1>>}", Dims="1..4",
                              Sizes="2..7",
                              Demands="0..6", Coords="-3..3", Targets="-3..3",
                              NClasses="{2, 3, 5}", Rules="{<<0, 0>>, <<5, 0>>, <<9, 9>>}")),
        ]),
    "E02": dict(
        harness="usage", trace="UsageTrace",
        runs=[
            dict(name="E02_mc", base="Usage", mode="mc", inv=USAGE_INV,
                 consts=estim(Classes=ALL_CLASSES, Forms='{"int"}', Arrays='{"f64"}',
                              Draws="{1}", Rhos="{<<1, 1>>}", Costs="{<<1, 1>>}", MaxLen="2",
                              Solvers='{"post", "dedicated", "unknown"}', Rules='{"own"}',
                              Supports="{FALSE}")),
            dict(name="E02_sim", base="Usage", mode="sim", inv=USAGE_INV, num=(500, 4000),
                 consts=estim(Classes=ALL_CLASSES, Forms='{"float", "int", "f32", "i64", "0d"}',
                              Arrays='{"f64", "f32", "int", "list", "fortran", "strided", "frozen"}',
                              Draws="0..5", MaxLen="7", NZs="{1, 3}",
                              Solvers='{"post", "torch", "pre", "dedicated", "unknown", "retired"}',
                              Rhos="{<<1, 10>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}", L2s="{0, 4}",
                              Icpts="BOOLEAN", Costs="{<<1, 1>>, <<1, 2>>, <<2, 2>>}",
                              Epss="{0, 4}", Lrs="{0, 1}", Sigs="{0, 4}",
                              Budgets="{<<1, 2>>, <<2>>, <<3, 1>>}", KUs="{<<5, 7>>, <<1, 4>>}",
                              Etas="{<<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}",
                              Alphas="{<<1, 4>>, <<1, 1>>}", Rules='{"own", "none", "default"}',
                              Supports="BOOLEAN")),
            dict(name="E02_long", base="Usage", mode="mc", inv=USAGE_INV,
                 consts=estim(Classes=ALL_CLASSES, Forms='{"float"}', Arrays='{"f64"}',
                              Draws="{1, 2}", MaxLen="1", Solvers='{"post", "torch", "pre"}',
                              Budgets="{<<>>}", Rules='{"own"}', Supports="{FALSE}")),
        ]),
    "E01": dict(
        harness="history", trace="HistoryTrace",
        runs=[
            dict(name="E01_mc", base="History", mode="mc", inv=HISTORY_INV,
                 consts=estim(Classes='{"log", "pf"}', Costs="{<<1, 1>>}", NSlots="2",
                              Rules="{1}", DataSets="{1}", Noises='{"draws"}', MaxLen="4")),
            dict(name="E01_sim", base="History", mode="sim", inv=HISTORY_INV, num=(700, 4000),
                 consts=estim(Classes=ALL_CLASSES, Solvers=ALL_SOLVERS, NSlots="3",
                              Rules="0..5", DataSets="1..6", MaxLen="10",
                              Noises='{"seeds", "draws", "robust", "grad"}',
                              Rhos="{<<0, 1>>, <<1, 10>>, <<1, 2>>}", NZs="{1, 3}",
                              Seeds="{0, 5}", Budgets="{<<1, 2>>, <<4>>, <<2, 5>>}", Lrs="{0, 1}",
                              Epss="{0, 4}", L2s="{0, 4}", Icpts="BOOLEAN",
                              Costs="{<<1, 1>>, <<1, 2>>, <<2, 2>>}", Supps="{0, 0, 3, 4}")),
            dict(name="E01_own", base="History", mode="sim", inv=HISTORY_INV, num=(400, 3000),
                 consts=estim(Classes=ALL_CLASSES, Solvers=ALL_SOLVERS, NSlots="1",
                              Rules="{0, 2}", DataSets="1..6", MaxLen="6", Noises='{"draws"}',
                              Rhos="{<<0, 1>>, <<1, 10>>, <<1, 2>>, <<2, 1>>}", NZs="{2}",
                              Seeds="{0, 5}", Budgets="{<<1, 2>>, <<4>>}", Lrs="{0, 1}",
                              L2s="{0, 4}", Icpts="BOOLEAN", Costs="{<<1, 1>>, <<2, 2>>}",
                              Supps="{0, 3}")),
            dict(name="E01_support", base="History", mode="sim", inv=HISTORY_INV, num=(150, 1000),
                 consts=estim(Classes='{"pf"}', Solvers='{"dedicated"}', NSlots="1",
                              Rules="{0}", DataSets="1..4", MaxLen="7", Noises='{"draws"}',
                              Rhos="{<<1, 2>>, <<2, 1>>, <<5, 1>>}", Costs="{<<1, 1>>}",
                              Supps="{0, 3, 4}", Etas="{<<1, 2>>, <<2, 1>>}",
                              Alphas="{<<1, 4>>, <<1, 1>>}")),
            dict(name="E01_dedicated", base="History", mode="sim", inv=HISTORY_INV,
                 num=(300, 2000),
                 consts=estim(Classes='{"lr", "log", "nv", "pf"}', Solvers='{"dedicated"}',
                              NSlots="2", Rules="{0}", DataSets="1..6", MaxLen="7",
                              Noises='{"draws"}', Rhos="{<<0, 1>>, <<1, 2>>, <<2, 1>>}",
                              Icpts="BOOLEAN", Costs="{<<1, 1>>, <<1, 2>>}", Supps="{0, 3, 4}",
                              KUs="{<<5, 7>>, <<1, 4>>}",
                              Etas="{<<1, 2>>, <<2, 1>>}", Alphas="{<<1, 4>>, <<1, 1>>}")),
        ]),
}
