package main

import "sync"

var proxyMu sync.Mutex

var proxyVars = []string{"no_proxy", "NO_PROXY", "http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY"}
