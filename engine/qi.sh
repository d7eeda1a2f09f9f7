# usage: qi.sh file.smt2 -- top quantifiers by instances
z3 -T:6 smt.mbqi=false auto_config=false "$1" smt.qi.profile=true smt.qi.profile_freq=3000 2>/dev/null | grep quantifier_inst | awk '{print $2,$4}' | sort -k1,1 -k2,2nr | sort -u -k1,1 | sort -k2,2nr | head -12
