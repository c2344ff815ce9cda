"""Concrete search for failing inputs.

Every property has a module-level pair
    cases(rng, tier)  -> iterator of JSON-serialisable inputs
    judge(x)          -> None, or a message saying how the real code of
                         /repo departs from the specification on input x
The executable specifications of /verif/contracts are the oracle.  The search
never decides that a property holds: it turns a failed obligation into a
failing input, and stands in (labelled bounded) for what is not proved."""
