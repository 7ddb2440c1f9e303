#!/bin/sh
# full vcheck in the background: log in /tmp/vcheckfull.log
setsid nohup vcheck >/tmp/vcheckfull.log 2>&1 </dev/null & echo started
