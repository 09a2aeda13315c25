#!/bin/sh
# fortran.sh EXTERNAL_DIR s|d OUT.a : L-BFGS-B and RALFit in one precision
set -e
R=$1; p=$2; out=$(realpath -m "$3")
if [ $p = s ]; then D1=-DSINGLE_PREC; D2=-DSINGLE_PRECISION; else D1=; D2=; fi
T=$out.tmp; mkdir -p $T/lb $T/rf
F="-cpp -O1 -fPIC -march=x86-64-v3 -w -fopenmp"
( cd $T/lb; gfortran $F $D1 -I$R/Lbfgsb.3.0 -J. -c $R/Lbfgsb.3.0/${p}working_precision.F90 $R/Lbfgsb.3.0/lbfgsb_mod.F90 \
   $R/Lbfgsb.3.0/linpack.F90 $R/Lbfgsb.3.0/timer.F90 $R/Lbfgsb.3.0/lbfgsb.F90 ) &
S=$R/RALFit/libRALFit/src
( cd $T/rf; gfortran $F $D2 -I$S -J. -c $(for f in types symbols dtrs workspaces printing bounds; do echo $S/ral_nlls_$f.F90; done) \
   $S/nag_export_mod.F90 $(for f in fd internal; do echo $S/ral_nlls_$f.F90; done) $S/ral_nlls.F90 $S/ral_nlls_ciface.F90 )
wait $!
rm -f $out
ar rcs $out $T/lb/*.o $T/rf/*.o
