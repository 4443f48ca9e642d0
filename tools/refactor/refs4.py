# ---- goroutines that are waited for
refs['go-disable'] = [('grant/authorization_code.go', '''			err = sdi.DisableSession(sess)
			if err != nil {
''', '''			answer := make(chan *bridge.Error)
			go func() { answer <- sdi.DisableSession(sess) }()
			err = <-answer
			if err != nil {
''')]
refs['go-handler'] = [('token_endpoint.go', '''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
	if oerr != nil {
''', '''	var res *grant.Response
	var oerr *oer.OAuthError
	var done sync.WaitGroup
	done.Add(1)
	go func(now time.Time) {
		defer done.Done()
		res, oerr = h(r, client, sdi, te.logger, now)
	}(te.currentTime())
	done.Wait()
	if oerr != nil {
'''), ('token_endpoint.go', '''import (
''', '''import (
	"sync"
	"time"
''')]
refs['go-select'] = [('resource_protector.go', '''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
''', '''	type found struct {
		info bridge.AuthInfo
		err  *bridge.Error
	}
	answer := make(chan found, 1)
	go func() {
		defer close(answer)
		info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
		answer <- found{info, err}
	}()
	var info bridge.AuthInfo
	select {
	case f, ok := <-answer:
		if ok {
			info, err = f.info, f.err
		}
	}
''')]
