# quiet profile: SPEC LEMMA -> counts, slow, failing names
timeout ${T:-400} python3 /tmp/prof.py $1 $2 2>&1 | grep -v "^   " | awk '{n[$2]++; if($1>m)m=$1; t+=$1; if($2!="proved"&&k++<12)print substr($0,1,140); if($1>1.5&&j++<8)print "SLOW",substr($0,1,120)} END{for(i in n)printf "%s=%d ",i,n[i]; print "max",m,"total",t}'
