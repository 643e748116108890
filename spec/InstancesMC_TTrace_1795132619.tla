---- MODULE InstancesMC_TTrace_1795132619 ----
EXTENDS Sequences, TLCExt, InstancesMC, Toolbox, Naturals, TLC

_expression ==
    LET InstancesMC_TEExpression == INSTANCE InstancesMC_TEExpression
    IN InstancesMC_TEExpression!expression
----

_trace ==
    LET InstancesMC_TETrace == INSTANCE InstancesMC_TETrace
    IN InstancesMC_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        pos = (<<2, 1, 0>>)
        /\
        reg = (<<<<1, 2>>, <<2, 0>>, <<3, 0>>>>)
        /\
        out = (<<<<<<1, 0>>, <<2, 1>>>>, <<<<2, 0>>>>, <<>>>>)
    )
----

_init ==
    /\ out = _TETrace[1].out
    /\ pos = _TETrace[1].pos
    /\ reg = _TETrace[1].reg
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ pos  = _TETrace[i].pos
        /\ pos' = _TETrace[j].pos
        /\ reg  = _TETrace[i].reg
        /\ reg' = _TETrace[j].reg

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("InstancesMC_TTrace_1795132619.json", _TETrace)

=============================================================================

 Note that you can extract this module `InstancesMC_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `InstancesMC_TEExpression.tla` file takes precedence 
  over the module `InstancesMC_TEExpression` below).

---- MODULE InstancesMC_TEExpression ----
EXTENDS Sequences, TLCExt, InstancesMC, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `InstancesMC` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        out |-> out
        ,pos |-> pos
        ,reg |-> reg
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_outUnchanged |-> out = out'
        
        \* Format the `out` variable as Json value.
        \* ,_outJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(out)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_outModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].out # _TETrace[s-1].out
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE InstancesMC_TETrace ----
\*EXTENDS IOUtils, InstancesMC, TLC
\*
\*trace == IODeserialize("InstancesMC_TTrace_1795132619.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE InstancesMC_TETrace ----
EXTENDS InstancesMC, TLC

trace == 
    <<
    ([pos |-> <<0, 0, 0>>,reg |-> <<<<1, 0>>, <<2, 0>>, <<3, 0>>>>,out |-> <<<<>>, <<>>, <<>>>>]),
    ([pos |-> <<1, 0, 0>>,reg |-> <<<<1, 1>>, <<2, 0>>, <<3, 0>>>>,out |-> <<<<<<1, 0>>>>, <<>>, <<>>>>]),
    ([pos |-> <<1, 1, 0>>,reg |-> <<<<2, 1>>, <<2, 0>>, <<3, 0>>>>,out |-> <<<<<<1, 0>>>>, <<<<2, 0>>>>, <<>>>>]),
    ([pos |-> <<2, 1, 0>>,reg |-> <<<<1, 2>>, <<2, 0>>, <<3, 0>>>>,out |-> <<<<<<1, 0>>, <<2, 1>>>>, <<<<2, 0>>>>, <<>>>>])
    >>
----


=============================================================================

---- CONFIG InstancesMC_TTrace_1795132619 ----
CONSTANTS
    N = 3
    K = 3
    SHARED = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 23:57:02 UTC 2026