module github.com/chronos-tachyon/morehttp/selftest

go 1.17
