export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOROOT=/opt/veriftools/go1.26.10 GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local
ulimit -v 12000000
