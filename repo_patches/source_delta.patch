From e2970d5737da4b4a88f243ef1cdea0e1641b4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 01/42] fix: set the command's error reporter so that internal
 errors do not panic

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..8b9e86b 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -82,8 +82,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From 8ed845af9d36bc0ac24bad5d6dcda316c8323089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 02/42] fix: do not panic on numbers in JSON arrays addressed
 by a JSON rule

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 8b9e86b..56cc401 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -278,9 +278,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From 07e0765a2e3a1fdec40adaa86c6277dd9067001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 03/42] fix: relay output lines longer than 64 KiB instead of
 stopping at the first one

---
 pkg/monny/command.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 56cc401..972a29f 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -17,6 +17,10 @@ import (
 	"github.com/BTBurke/monny/pkg/proto"
 )
 
+// maxLineLength removes the default limit on the length of log lines, which would stop relaying
+// the output at the first line over 64 KiB and block the user's command
+const maxLineLength = int(^uint(0) >> 1)
+
 // Command represents the current state of process execution
 type Command struct {
 	Config        Config
@@ -124,6 +128,8 @@ func (c *Command) Exec() error {
 	}
 	stdoutScanner := bufio.NewScanner(stdoutReader)
 	stderrScanner := bufio.NewScanner(stderrReader)
+	stdoutScanner.Buffer(nil, maxLineLength)
+	stderrScanner.Buffer(nil, maxLineLength)
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From 0791c63e9f672ab7f089bfe87ab7a0193509909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 04/42] fix: keep exactly the last N lines of output history,
 for any N

---
 pkg/monny/command.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 972a29f..c07524f 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -312,11 +312,12 @@ func (c *Command) processStdout(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stdout)
 	c.mutex.Lock()
+	history := len(c.Stdout)
 	switch {
+	case c.Config.StdoutHistory <= 0:
 	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
+		c.Stdout = append(c.Stdout[1:], string(line))
 	default:
 		c.Stdout = append(c.Stdout, string(line))
 	}
@@ -337,11 +338,12 @@ func (c *Command) processStderr(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stderr)
 	c.mutex.Lock()
+	history := len(c.Stderr)
 	switch {
+	case c.Config.StderrHistory <= 0:
 	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
+		c.Stderr = append(c.Stderr[1:], string(line))
 	default:
 		c.Stderr = append(c.Stderr, string(line))
 	}
-- 
2.43.0


From 343e3c1ff7cebd077702eb9929fe6a5958b121c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 05/42] fix: do not wait for the end of stdin after the command
 has ended

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index c07524f..d4c4792 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -138,9 +138,9 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	wg.Add(2)
+	// not waited for: reading stdin may block long after the command has ended
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
-- 
2.43.0


From d3a6aad90d35185627694584234983ce51780105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 06/42] fix: report a missing command instead of panicking

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index d4c4792..186e5b6 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -102,6 +102,9 @@ func (c *Command) Wait() error {
 // metrics
 func (c *Command) Exec() error {
 	var cmd *exec.Cmd
+	if len(c.UserCommand) == 0 {
+		return fmt.Errorf("no command to execute")
+	}
 	wrappedCmd, cleanup, err := wrapComplexCommand(c.Config.Shell, c.UserCommand)
 	if err != nil {
 		return err
-- 
2.43.0


From f76f01580372f048e4520f6136d4786e7887ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 07/42] fix: report a positive duration when killed on timeout

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..e32cd6f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From a8f96b0d65e3a022402166efab4e3a5b76b47b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 08/42] fix: send memory and time warnings, which were
 suppressed as already sent

---
 pkg/monny/report.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..61566be 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -109,17 +109,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			closeChannels()
 			return
 		}
-	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
-	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
+	case proto.MemoryWarning, proto.TimeWarning:
+		// the handlers call this only once
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
-- 
2.43.0


From da76ecdb7798f7a3ba62be762a0a2ecefa3df8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 09/42] fix: wait for reports that are still being sent before
 exiting

---
 pkg/monny/command.go  | 34 ++++++++++++++++++++++++++++++----
 pkg/monny/handlers.go | 16 ++++++++--------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 186e5b6..fed9c4c 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -42,6 +42,8 @@ type Command struct {
 	Messages      []string
 
 	mutex        sync.Mutex
+	sending      int
+	sent         *sync.Cond
 	pid          int
 	memWarnSent  bool
 	timeWarnSent bool
@@ -95,9 +97,33 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	c.mutex.Lock()
+	if c.sent == nil {
+		c.sent = sync.NewCond(&c.mutex)
+	}
+	for c.sending > 0 {
+		c.sent.Wait()
+	}
+	c.mutex.Unlock()
 	return c.report.Wait()
 }
 
+// send sends a report in the background.  Wait will not return before it is finished.
+func (c *Command) send(reason proto.ReportReason) {
+	c.mutex.Lock()
+	c.sending++
+	c.mutex.Unlock()
+	go func() {
+		c.report.Send(c, reason)
+		c.mutex.Lock()
+		c.sending--
+		if c.sent != nil {
+			c.sent.Broadcast()
+		}
+		c.mutex.Unlock()
+	}()
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -310,9 +336,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
@@ -336,9 +362,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index e32cd6f..5b20fb1 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		c.send(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,7 +49,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		c.send(proto.Failure)
 	}
 	handleFileCreation(c)
 	return nil
@@ -66,7 +66,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +85,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -103,7 +103,7 @@ func (h handler) TimeWarning(c *Command) error {
 	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.send(proto.TimeWarning)
 
 	return nil
 }
@@ -125,7 +125,7 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.send(proto.MemoryWarning)
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -144,7 +144,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.send(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
-- 
2.43.0


From df376950240697f32e11cd49005c8a9f8100fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 10/42] fix: check expected files before reporting the outcome,
 and do not report success when one is missing

---
 pkg/monny/handlers.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 5b20fb1..85301bb 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,6 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		c.send(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,9 +48,14 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
+	}
+	missing := handleFileCreation(c)
+	switch {
+	case !cmd.ProcessState.Success():
 		c.send(proto.Failure)
+	case !missing:
+		c.send(proto.Success)
 	}
-	handleFileCreation(c)
 	return nil
 }
 
@@ -152,12 +156,15 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 }
 
 // handleFileCreation is called on process completion and checks for the existence of
-// files that should have been created if the configuration includes the created flag.
-func handleFileCreation(c *Command) {
+// files that should have been created if the configuration includes the created flag.  Returns
+// whether any of them is missing.
+func handleFileCreation(c *Command) bool {
+	var missing bool
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
 		case os.IsNotExist(err):
+			missing = true
 			c.mutex.Lock()
 			c.Success = false
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
@@ -176,5 +183,5 @@ func handleFileCreation(c *Command) {
 			continue
 		}
 	}
-	return
+	return missing
 }
-- 
2.43.0


From ff5add168c3bb032250b451d276f30f950670ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 11/42] fix: report an expected file as not created whenever it
 cannot be found, whatever the error

---
 pkg/monny/handlers.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 85301bb..ae94c91 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -163,7 +163,7 @@ func handleFileCreation(c *Command) bool {
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
-		case os.IsNotExist(err):
+		case err != nil:
 			missing = true
 			c.mutex.Lock()
 			c.Success = false
@@ -171,7 +171,7 @@ func handleFileCreation(c *Command) bool {
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
 			c.send(proto.FileNotCreated)
-		case err == nil:
+		default:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
 				Path: finfo.Name(),
@@ -179,8 +179,6 @@ func handleFileCreation(c *Command) bool {
 				Size: finfo.Size(),
 			})
 			c.mutex.Unlock()
-		default:
-			continue
 		}
 	}
 	return missing
-- 
2.43.0


From 4e734b4745c6ecc8223dd2b20098993a554db29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 12/42] fix: alert on each rule match exactly when it occurs,
 without losing matches found during sending

---
 pkg/monny/command.go |  4 ++--
 pkg/monny/report.go  | 32 ++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index fed9c4c..b31d248 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -333,7 +333,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.send(proto.AlertRate)
@@ -359,7 +359,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.send(proto.AlertRate)
diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 61566be..c458a04 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -62,6 +62,14 @@ func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report
 func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	c.mutex.Lock()
 	pb := r.sender.create(c, reason)
+	// the matches being reported are taken from the command, so that matches found while the
+	// report is under way are kept for the next one
+	var matches []RuleMatch
+	alertRateExceeded := reason == proto.AlertRate && calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
+	if reason == proto.Alert || alertRateExceeded {
+		matches = c.RuleMatches
+		c.RuleMatches = []RuleMatch{}
+	}
 	c.mutex.Unlock()
 
 	result := make(chan error, 1)
@@ -73,7 +81,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		close(cancel)
 	}
 
-	cb := func() { return }
 	switch reason {
 	case proto.Failure:
 		if c.Config.NotifyOnFailure {
@@ -93,18 +100,9 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
 		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
-			return
-		}
 	case proto.AlertRate:
-		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
 		} else {
 			closeChannels()
 			return
@@ -123,15 +121,21 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		return
 	}
 
+	// put the matches back if they could not be reported
+	restore := func() {
+		c.mutex.Lock()
+		c.RuleMatches = append(matches, c.RuleMatches...)
+		c.mutex.Unlock()
+	}
+
 	select {
 	case err := <-result:
-		switch {
-		case err == nil:
-			cb()
-		default:
+		if err != nil {
+			restore()
 			c.errors.ReportError(err)
 		}
 	case <-timeout:
+		restore()
 		cancel <- true
 		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
 	}
-- 
2.43.0


From 11af31b9f444e57f03706f8389d90cb909d7b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 13/42] fix: do not change the connection options while earlier
 reports are using them

---
 pkg/monny/report.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index c458a04..5d68ddd 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -47,9 +47,12 @@ type senderService struct {
 // Create prepares a new report based on the current status of the command.
 func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report {
 	pb := reportFromCommand(c, reason, s.errors.ReportError)
-	if c.Config.useTLS {
+	// set only once, earlier reports may still be using the options
+	switch {
+	case len(s.opts) > 0:
+	case c.Config.useTLS:
 		s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
-	} else {
+	default:
 		s.opts = append(s.opts, grpc.WithInsecure())
 	}
 	return pb
-- 
2.43.0


From 72b38f932933d2e14a8b33df0d0182f6ccde4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 14/42] fix: give up sending at the deadline without crashing,
 hanging or leaking the report's contents

---
 pkg/monny/report.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 5d68ddd..c2377a9 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -79,24 +79,17 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	cancel := make(chan bool, 1)
 	timeout := time.After(1 * time.Hour)
 
-	closeChannels := func() {
-		close(result)
-		close(cancel)
-	}
-
 	switch reason {
 	case proto.Failure:
 		if c.Config.NotifyOnFailure {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.Success:
 		if c.Config.NotifyOnSuccess {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.FileNotCreated, proto.Killed:
@@ -107,7 +100,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.MemoryWarning, proto.TimeWarning:
@@ -117,7 +109,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if c.Config.Daemon {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	default:
@@ -140,9 +131,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	case <-timeout:
 		restore()
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		c.errors.ReportError(fmt.Errorf("timeout on background report send"))
 	}
-	closeChannels()
 }
 
 // Wait will cause the process to block until the report is finished sending in the background.
@@ -168,6 +158,15 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+	ctx, stop := context.WithCancel(context.Background())
+	defer stop()
+	go func() {
+		select {
+		case <-cancel:
+			stop()
+		case <-ctx.Done():
+		}
+	}()
 	send := func() error {
 		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
 		if err != nil {
@@ -176,7 +175,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		defer conn.Close()
 
 		client := pb.NewReportsClient(conn)
-		ack, err := client.Create(context.Background(), report)
+		ack, err := client.Create(ctx, report)
 		if err != nil {
 			return err
 		}
@@ -185,10 +184,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
-	select {
-	case result <- backoff.Retry(send, backoff.NewExponentialBackOff()):
-	case <-cancel:
-	}
+	result <- backoff.Retry(send, backoff.WithContext(backoff.NewExponentialBackOff(), ctx))
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From 563c80ad56a23a9c000ea2f335ee3fc0f46dc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 15/42] fix: deliver reports when the output or command line is
 not valid UTF-8

---
 pkg/monny/report.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index c2377a9..0335038 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -217,10 +217,10 @@ func calcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool
 // schema on the backend
 func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e error)) *pb.Report {
 	return &pb.Report{
-		Id:            c.Config.ID,
+		Id:            validUTF8(c.Config.ID),
 		Hostname:      c.Config.Hostname,
-		Stdout:        c.Stdout,
-		Stderr:        c.Stderr,
+		Stdout:        allValidUTF8(c.Stdout),
+		Stderr:        allValidUTF8(c.Stderr),
 		Success:       c.Success,
 		MaxMemory:     c.MaxMemory,
 		Killed:        c.Killed,
@@ -232,14 +232,27 @@ func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e err
 		Duration:      c.Duration.String(),
 		ExitCode:      c.ExitCode,
 		ExitCodeValid: c.ExitCodeValid,
-		Messages:      c.Messages,
+		Messages:      allValidUTF8(c.Messages),
 		Matches:       marshalMatches(c.RuleMatches, onError),
-		UserCommand:   strings.Join(c.UserCommand, " "),
+		UserCommand:   validUTF8(strings.Join(c.UserCommand, " ")),
 		Config:        marshalConfig(c.Config, onError),
 		CreatedAt:     time.Now().Unix(),
 	}
 }
 
+// validUTF8 replaces invalid bytes, which protocol buffers do not accept
+func validUTF8(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
+func allValidUTF8(a []string) []string {
+	var out []string
+	for _, s := range a {
+		out = append(out, validUTF8(s))
+	}
+	return out
+}
+
 func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
 	b, err := json.Marshal(a)
 	if err != nil {
-- 
2.43.0


From 2ed4bb6185351b254c89b7c60ca3daaa35b63fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 16/42] fix: use the configured shell instead of always the
 default one

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..0c05265 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 83004a82aafadfbff24154e966dbff5376552081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 17/42] fix: make the default report host a host name that can
 be dialled

---
 pkg/monny/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 0c05265..d809241 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -11,7 +11,7 @@ import (
 	"time"
 )
 
-const api string = "https://report.lmkwtf.com"
+const api string = "report.lmkwtf.com"
 const port string = "443"
 
 // Config stores configuration data for the monitoring service.  Functional options are
-- 
2.43.0


From bffb7204ddfda2ac3025a3587b47f2ce09e11326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 18/42] fix: do not enable boolean options that are explicitly
 set to false

---
 pkg/monny/parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..6ae4bd5 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return boolOption(name, value, NoNotifyOnSuccess())
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return boolOption(name, value, NoNotifyOnFailure())
 	case "daemon":
-		return Daemon(), nil
+		return boolOption(name, value, Daemon())
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return boolOption(name, value, Insecure())
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return boolOption(name, value, NoErrorReports())
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,18 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// boolOption applies the option only if the value is true
+func boolOption(name string, value string, option ConfigOption) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value for %s, should be true or false: %s", name, value)
+	}
+	if !on {
+		return func(c *Config) error { return nil }, nil
+	}
+	return option, nil
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +169,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 252c889e6ea39e9ea58faa0f321ace80009b96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 19/42] fix: apply each list of a YAML configuration once, also
 next to single values

---
 pkg/monny/parse.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 6ae4bd5..5535737 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -180,6 +180,8 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			if err := yaml.Unmarshal(data, &alt); err != nil {
 				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 			}
+			// only the list under this key, the others are handled when it is their turn
+			alt = alt.only(k)
 			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
@@ -212,7 +214,37 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 }
 
 type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
+	Rule     stringsYAML `yaml:"rule"`
+	JSONRule stringsYAML `yaml:"rule-json"`
+	Creates  stringsYAML `yaml:"creates"`
+}
+
+func (l listFieldsYAML) only(key string) listFieldsYAML {
+	switch key {
+	case "rule":
+		return listFieldsYAML{Rule: l.Rule}
+	case "rule-json":
+		return listFieldsYAML{JSONRule: l.JSONRule}
+	case "creates":
+		return listFieldsYAML{Creates: l.Creates}
+	default:
+		return listFieldsYAML{}
+	}
+}
+
+// stringsYAML is a list of strings which may be given as a single string
+type stringsYAML []string
+
+func (s *stringsYAML) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var list []string
+	if err := unmarshal(&list); err == nil {
+		*s = list
+		return nil
+	}
+	var single string
+	if err := unmarshal(&single); err != nil {
+		return err
+	}
+	*s = []string{single}
+	return nil
 }
-- 
2.43.0


From 1147d5e243afa62f28b36a69aeee6a149272aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 20/42] verif hook: shortened report send deadline under build
 tag verif

---
 pkg/monny/report.go            |  2 +-
 pkg/monny/sendtimeout.go       |  9 +++++++++
 pkg/monny/sendtimeout_verif.go | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)
 create mode 100644 pkg/monny/sendtimeout.go
 create mode 100644 pkg/monny/sendtimeout_verif.go

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 0335038..6fcfc61 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -77,7 +77,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 
 	result := make(chan error, 1)
 	cancel := make(chan bool, 1)
-	timeout := time.After(1 * time.Hour)
+	timeout := time.After(sendTimeout)
 
 	switch reason {
 	case proto.Failure:
diff --git a/pkg/monny/sendtimeout.go b/pkg/monny/sendtimeout.go
new file mode 100644
index 0000000..30274d6
--- /dev/null
+++ b/pkg/monny/sendtimeout.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package monny
+
+import "time"
+
+// sendTimeout is how long delivery of a report is attempted
+const sendTimeout = 1 * time.Hour
diff --git a/pkg/monny/sendtimeout_verif.go b/pkg/monny/sendtimeout_verif.go
new file mode 100644
index 0000000..679500d
--- /dev/null
+++ b/pkg/monny/sendtimeout_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package monny
+
+import (
+	"os"
+	"time"
+)
+
+// sendTimeout can be shortened with MONNY_VERIF_SEND_TIMEOUT
+var sendTimeout = func() time.Duration {
+	if d, err := time.ParseDuration(os.Getenv("MONNY_VERIF_SEND_TIMEOUT")); err == nil {
+		return d
+	}
+	return 1 * time.Hour
+}()
-- 
2.43.0


From 0a21d156707cb7522faf85e662513d5fc792ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 21/42] fix: read each list of a YAML configuration
 independently of the other settings

---
 pkg/monny/parse.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 5535737..83405b0 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -176,12 +176,10 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			options = append(options, opt)
 		// handles the case of a list of rules
 		case interface{}:
-			alt := listFieldsYAML{}
-			if err := yaml.Unmarshal(data, &alt); err != nil {
+			alt, err := listFromYAML(data, k)
+			if err != nil {
 				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 			}
-			// only the list under this key, the others are handled when it is their turn
-			alt = alt.only(k)
 			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
@@ -214,22 +212,34 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 }
 
 type listFieldsYAML struct {
-	Rule     stringsYAML `yaml:"rule"`
-	JSONRule stringsYAML `yaml:"rule-json"`
-	Creates  stringsYAML `yaml:"creates"`
+	Rule     stringsYAML
+	JSONRule stringsYAML
+	Creates  stringsYAML
 }
 
-func (l listFieldsYAML) only(key string) listFieldsYAML {
+// listFromYAML returns only the list under this key, the others are handled when it is their turn
+func listFromYAML(data []byte, key string) (l listFieldsYAML, err error) {
 	switch key {
 	case "rule":
-		return listFieldsYAML{Rule: l.Rule}
+		var f struct {
+			List stringsYAML `yaml:"rule"`
+		}
+		err = yaml.Unmarshal(data, &f)
+		l.Rule = f.List
 	case "rule-json":
-		return listFieldsYAML{JSONRule: l.JSONRule}
+		var f struct {
+			List stringsYAML `yaml:"rule-json"`
+		}
+		err = yaml.Unmarshal(data, &f)
+		l.JSONRule = f.List
 	case "creates":
-		return listFieldsYAML{Creates: l.Creates}
-	default:
-		return listFieldsYAML{}
+		var f struct {
+			List stringsYAML `yaml:"creates"`
+		}
+		err = yaml.Unmarshal(data, &f)
+		l.Creates = f.List
 	}
+	return l, err
 }
 
 // stringsYAML is a list of strings which may be given as a single string
-- 
2.43.0


From 306e35c465dc0e869d06c58e30971351353c500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 22/42] fix: deliver and shut down independently of blocked,
 removed and misbehaving subscribers

---
 pkg/eventbus/bus.go | 140 ++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 49 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..aec0701 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -24,16 +24,64 @@ const (
 // filter which events they respond to rather than configuring multiple topics.
 type EventBus struct {
 	subscribers map[Topic][]chan Event
+	subs        map[chan Event]*subscription
 	done        []chan struct{}
 	mutex       sync.RWMutex
 	sdStarted   bool
 }
 
+// subscription guards the event channel of one subscriber.  Sends happen concurrently in their own go routines
+// and are never made while holding the lock of the bus, so a subscriber that does not receive only affects itself.
+type subscription struct {
+	c     chan Event
+	stop  chan struct{}
+	once  sync.Once
+	mutex sync.RWMutex
+}
+
+func newSubscription() *subscription {
+	return &subscription{c: make(chan Event, 1), stop: make(chan struct{})}
+}
+
+// send delivers the event unless the subscription is closed first
+func (s *subscription) send(event Event) {
+	// the subscriber may have closed the channel improperly
+	defer func() { _ = recover() }()
+
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+
+	select {
+	case <-s.stop:
+		return
+	default:
+	}
+
+	select {
+	case s.c <- event:
+	case <-s.stop:
+	}
+}
+
+// close gives up all pending sends, then closes the event channel to signal the subscriber
+func (s *subscription) close() {
+	s.once.Do(func() {
+		close(s.stop)
+
+		s.mutex.Lock()
+		defer s.mutex.Unlock()
+		// the subscriber may have closed the channel improperly
+		defer func() { _ = recover() }()
+		close(s.c)
+	})
+}
+
 // New returns a new event bus.  A default topic is created, but subscribers may create other topics
 // when they register.
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		subs:        make(map[chan Event]*subscription),
 	}
 }
 
@@ -69,7 +117,9 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
-	c := make(chan Event, 1)
+	sub := newSubscription()
+	c := sub.c
+	e.subs[c] = sub
 	done := make(chan struct{})
 	e.done = append(e.done, done)
 
@@ -95,21 +145,31 @@ func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
+	if sub, ok := e.subs[c]; ok {
+		sub.close()
+		delete(e.subs, c)
+	}
+
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
-			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+		keep := make([]chan Event, 0, len(chs))
+		for _, ch := range chs {
+			if ch != c {
+				keep = append(keep, ch)
 			}
 		}
+		e.subscribers[topic] = keep
 	}
 
 	for i, d := range e.done {
 		if d == done {
-			close(d)
-			recover()
+			// the subscriber may already have signalled that it is finished
+			select {
+			case <-d:
+			default:
+				close(d)
+			}
 			e.done = append(e.done[0:i], e.done[i+1:]...)
+			break
 		}
 	}
 }
@@ -126,39 +186,22 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	topics = append(append(make([]Topic, 0, len(topics)+1), topics...), defaultTopic)
 
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
 		// it should be ok to emit events on specialized channels where there may not be subscribers in some cases
-		channels, ok := e.subscribers[topic]
-		if len(channels) == 0 || !ok {
-			continue
-		}
-
-		// make a copy of the channels to preserve locking
-		chs := append([]chan Event{}, channels...)
-
-		go func(event Event, chs []chan Event) {
-			for _, ch := range chs {
-				// run in go func so that if channel is closed by subscriber improperly or
-				// blocks because channel buffer is full it won't prevent other subscribers
-				// from receiving the event
-
-				// this will pessimistically lock the send channel in case the event bus is behind in sending
-				// events and shutdown has started.  Events will be silently dropped if shutdown is called and there
-				// are still pending events because subscribers are blocking.
-				go func(evt Event, c chan Event) {
-					e.mutex.RLock()
-					defer e.mutex.RUnlock()
-					if e.sdStarted {
-						return
-					}
-					defer recover()
-					c <- evt
-				}(event, ch)
+		for _, ch := range e.subscribers[topic] {
+			// run in go func so that if channel is closed by subscriber improperly or
+			// blocks because channel buffer is full it won't prevent other subscribers
+			// from receiving the event
+			//
+			// Events will be silently dropped if shutdown is called and there are still pending events because
+			// subscribers are blocking.
+			if sub, ok := e.subs[ch]; ok {
+				go sub.send(event)
 			}
-		}(event, chs)
+		}
 	}
 }
 
@@ -168,23 +211,22 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
 	e.sdStarted = true
+	all := append([]chan struct{}{}, e.done...)
+	subs := make([]*subscription, 0, len(e.subs))
+	for _, sub := range e.subs {
+		subs = append(subs, sub)
+	}
+	e.mutex.Unlock()
 
-	done := make(chan struct{})
-	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
-
-	for _, chs := range e.subscribers {
-		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
-		}
+	// close all subscriber channels to signal shutdown
+	for _, sub := range subs {
+		sub.close()
 	}
 
+	done := make(chan struct{})
+	go shutdownNotify(done, all)
+
 	select {
 	case <-ctx.Done():
 		return ErrShutdownTimeout
-- 
2.43.0


From 28462a8c754a6542f25936a29a6719b6a73c2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 23/42] fix: return an error for event payloads that cannot be
 encoded, and do not print payloads

---
 pkg/eventbus/event.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..e191b38 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -37,20 +36,33 @@ func (e Event) Decode(receiver interface{}) error {
 	return nil
 }
 
-func NewEvent(t EventType, data interface{}) (Event, error) {
+// NewEvent returns an event carrying an encoded copy of data, or an error if it cannot be encoded
+func NewEvent(t EventType, data interface{}) (evt Event, err error) {
 	var b bytes.Buffer
 	if data != nil {
-		gob.Register(data)
+		// gob panics on values that it cannot encode at all, such as nil pointers
+		defer func() {
+			if r := recover(); r != nil {
+				evt, err = Event{}, fmt.Errorf("failed to create event %s: %v", t, r)
+			}
+		}()
+		register(data)
 		enc := gob.NewEncoder(&b)
 		if err := enc.Encode(data); err != nil {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
 		}
 	}
 
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
+// register makes the type known to gob.  A type that is already known by another name, such as when using a type and
+// pointers to it, remains registered as is.
+func register(data interface{}) {
+	defer func() { _ = recover() }()
+	gob.Register(data)
+}
+
 func NewErrorEvent(t EventType, err error) (Event, error) {
 	return NewEvent(t, err)
 }
-- 
2.43.0


From 7abb4404e852a2f04a4e33ffae67dad1d5e71731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 24/42] fix: do not panic when adding to queues with a capacity
 of zero or one

---
 pkg/monny/proc/queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..bcab86a 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	s := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return s
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -35,6 +36,8 @@ func (q *Queue) Add(s string) {
 	defer q.mu.Unlock()
 
 	switch {
+	case q.capacity <= 0:
+		return
 	case len(q.q) < q.capacity:
 		q.add(s)
 	default:
-- 
2.43.0


From 69210000fd8750f31c7e553212570c804a269bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 25/42] fix: stop the ticker when the event bus shuts down
 instead of spinning

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From 12b408a3eb8e9b187a94523f817509e87258a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 26/42] fix: process log lines longer than 64 KiB instead of
 stopping at the first one

---
 pkg/monny/proc/logs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..5a77870 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -18,6 +18,10 @@ const (
 	LogTopic = eventbus.Topic("log_topic")
 )
 
+// maxLineLength removes the default limit on the length of log lines, which would stop processing the source at
+// the first line over 64 KiB
+const maxLineLength = int(^uint(0) >> 1)
+
 // LogEvent is the payload for the message sent on the bus
 type LogEvent struct {
 	Timestamp time.Time
@@ -73,6 +77,7 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 		defer done()
 	}
 	scanner := bufio.NewScanner(src.in)
+	scanner.Buffer(nil, maxLineLength)
 	for scanner.Scan() {
 		data := scanner.Bytes()
 		src.q.Add(string(data))
-- 
2.43.0


From c915715ee2eb8b471311687da94c6ddf23c4289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 27/42] fix: return zero instead of -1 for a poisson rate of
 zero

---
 pkg/rng/poisson.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/rng/poisson.go b/pkg/rng/poisson.go
index 61163e6..28df971 100644
--- a/pkg/rng/poisson.go
+++ b/pkg/rng/poisson.go
@@ -20,11 +20,13 @@ func (r *PoissonRNG) Rand() float64 {
 	var k int64 = 0
 	var p float64 = 1.0
 
-	for p > L {
+	for {
 		k++
 		p = p * r.r.Float64()
+		if p <= L {
+			return float64(k - 1)
+		}
 	}
-	return float64(k - 1)
 }
 
 func NewPoissonRNG(lambda float64) *PoissonRNG {
-- 
2.43.0


From 71d8fe1d6f5e052eecbaea3e3d783cda3d100c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 28/42] fix: do not expose the current nonce to modification

---
 pkg/fsm/nonce.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fsm/nonce.go b/pkg/fsm/nonce.go
index 8d4041d..c0aacaf 100644
--- a/pkg/fsm/nonce.go
+++ b/pkg/fsm/nonce.go
@@ -72,9 +72,9 @@ func (m *MachineNonce) Transition(to State, nonce []byte) error {
 	return nil
 }
 
-// Nonce returns the current nonce value
+// Nonce returns a copy of the current nonce value
 func (m *MachineNonce) Nonce() []byte {
-	return m.nonce.current
+	return append([]byte{}, m.nonce.current...)
 }
 
 type nonce struct {
-- 
2.43.0


From 6275d5c0db9d183190e876a22a7840bd29fdc03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 29/42] fix: windowed counters without window, and histories
 independent of later use

---
 pkg/metric/counter.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..25b6c8f 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -73,12 +73,15 @@ type WindowedCounter struct {
 
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
+	if c.current == nil {
+		return 0
+	}
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
@@ -87,6 +90,9 @@ func (c *WindowedCounter) Value() int {
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
+	if c.current == nil {
+		c.current = NewCounter()
+	}
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -101,20 +107,32 @@ func (c *WindowedCounter) Add(i uint) {
 
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
+	if c.current == nil {
+		return []Counter{}
+	}
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return c.HistoryInclusive()
 	default:
-		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.copyHistory(), c.MaxHistory, c.MaxHistoryDuration)
 	}
 }
 
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	if c.current == nil {
+		return []Counter{}
+	}
+	return newHistory(append(c.copyHistory(), *c.current), c.MaxHistory, c.MaxHistoryDuration)
+}
+
+// copyHistory returns a copy of the history, so that neither concurrent readers nor later additions share memory
+// with a history that was already returned
+func (c *WindowedCounter) copyHistory() []Counter {
+	return append(make([]Counter, 0, len(c.hist)+1), c.hist...)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
@@ -140,6 +158,9 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
 	c.hist = []Counter{}
+	if c.current == nil {
+		return
+	}
 	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 }
 
-- 
2.43.0


From e53f6538864f3845f916dcdfd7887ca576f179ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 30/42] fix: allow adding metadata to names created without
 any, and render names without metadata alike

---
 pkg/metric/name.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..caadaa5 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -29,9 +29,13 @@ func (n Name) String() string {
 	return n.name + string(md)
 }
 
-// NewName returns a new name with the associated metadata
+// NewName returns a new name with a copy of the associated metadata
 func NewName(name string, md map[string]string) Name {
-	return Name{name: name, md: md}
+	copiedMD := make(map[string]string, len(md))
+	for k, v := range md {
+		copiedMD[k] = v
+	}
+	return Name{name: name, md: copiedMD}
 }
 
 // AddAnnotation adds additional annotations
@@ -52,7 +56,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
@@ -87,9 +91,5 @@ func MarshalText(m metadata) ([]byte, error) {
 }
 
 func NewNameFrom(n Name) Name {
-	copiedMD := make(map[string]string)
-	for k, v := range n.md {
-		copiedMD[k] = v
-	}
-	return NewName(n.name, copiedMD)
+	return NewName(n.name, n.md)
 }
-- 
2.43.0


From 14d08ddf03c8ac0b72ebbaef6510b282f6efa99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 31/42] fix: gather a fresh baseline after a reset instead of
 testing against the old one

---
 pkg/stat/estimator.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..fb51a5e 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -42,19 +42,6 @@ func (e *TestStatistic) Record(o float64) error {
 
 	e.series.Record(o)
 	switch e.fsm.State() {
-	case Reset:
-		// reset assumes that estimator should be restarted from steady state non-alarmed condition
-		// and next transition should be to testing the UCL
-		if err := e.fsm.Transition(UCLInitial); err != nil {
-			return err
-		}
-		// if forced into reset with existing observations, start series recording over again
-		if e.series.Count() > 0 {
-			e.series.Reset()
-			// re-record the current observation after reseting the series
-			e.series.Record(o)
-		}
-		fallthrough
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
@@ -69,6 +56,17 @@ func (e *TestStatistic) Record(o float64) error {
 				return err
 			}
 		}
+	case Reset:
+		// reset assumes that estimator should be restarted from steady state non-alarmed condition
+		// and next transition should be to testing the UCL
+		if err := e.fsm.Transition(UCLInitial); err != nil {
+			return err
+		}
+		// if forced into reset with existing observations, start series recording over again
+		// and re-record the current observation after reseting the series
+		e.series.Reset()
+		e.series.Record(o)
+		fallthrough
 	case UCLInitial:
 		if e.series.Count() >= e.series.Capacity() {
 			values := e.series.Values()
-- 
2.43.0


From d96946d486c9b7c2412135d4f7e97b39edb52e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 32/42] fix: start testing also when the mean of the
 transformed observations is negative

---
 pkg/stat/estimator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index fb51a5e..c6a521c 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -72,7 +72,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingUCL); err != nil {
 					return err
 				}
@@ -85,7 +85,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingLCL); err != nil {
 					return err
 				}
-- 
2.43.0


From 7ee738166f5af06182bf963fa36130b4c437408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 33/42] fix: keep the recorded series when a transition is
 refused

---
 pkg/stat/estimator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index c6a521c..4a5ad66 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -121,10 +121,13 @@ func (e *TestStatistic) calculateCurrent(o float64) {
 // Transition will attempt to transition to estimator to the desired state.  Optionally reset the series to
 // force it to collect new baseline observations before entering testing phase
 func (e *TestStatistic) Transition(state fsm.State, resetSeries bool) error {
+	if err := e.fsm.Transition(state); err != nil {
+		return err
+	}
 	if resetSeries {
 		e.series.Reset()
 	}
-	return e.fsm.Transition(state)
+	return nil
 }
 
 // calculateLimit will determine the UCL or LCL limit (UCL => direction +1, LCL => direction -1)
-- 
2.43.0


From e01c82eab3682374ab9ca77574f4166f5cc860e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 34/42] fix: record and transition all statistics of a test,
 also if one refuses

---
 pkg/stat/stattest.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/stat/stattest.go b/pkg/stat/stattest.go
index f2a27e9..831d2d8 100644
--- a/pkg/stat/stattest.go
+++ b/pkg/stat/stattest.go
@@ -22,21 +22,23 @@ func (t *Test) Name() string {
 }
 
 func (t *Test) Record(obs float64) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Record(obs); err != nil {
-			return err
+		if err := s.Record(obs); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) Transition(state fsm.State, reset bool) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Transition(state, reset); err != nil {
-			return err
+		if err := s.Transition(state, reset); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) HasAlarmed() bool {
-- 
2.43.0


From 8c3ce8b1e635eaa005ea911d104edeba53e19496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 35/42] fix: constant observations have no variance, whatever
 the rounding of their mean

---
 pkg/stat/pdf.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/stat/pdf.go b/pkg/stat/pdf.go
index 244f4da..68d9c75 100644
--- a/pkg/stat/pdf.go
+++ b/pkg/stat/pdf.go
@@ -139,6 +139,10 @@ func meanNormal(values []float64) float64 {
 }
 
 func varianceNormal(values []float64, mean float64) float64 {
+	// rounding of the mean must not give constant observations a variance
+	if constant(values) {
+		return 0.0
+	}
 	s := 0.0
 	for _, v := range values {
 		s = s + math.Pow(v-mean, 2)
@@ -146,6 +150,15 @@ func varianceNormal(values []float64, mean float64) float64 {
 	return s / float64(len(values)-1)
 }
 
+func constant(values []float64) bool {
+	for _, v := range values {
+		if v != values[0] {
+			return false
+		}
+	}
+	return true
+}
+
 func meanPoisson(values []float64) float64 {
 	// MLE for Poisson mean is the same as Normal, mean of the observed sample
 	return meanNormal(values)
-- 
2.43.0


From 7d652acf517cbc53b11baeec4684b683a487d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 36/42] fix: drop rule matches that are too old to count
 towards the rate instead of keeping them forever

---
 pkg/monny/command.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index b31d248..34b4963 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -253,6 +253,27 @@ func (c *Command) Exec() error {
 	}
 }
 
+// addMatches records matches until they are reported.  Matches that have become too old to count
+// towards the rate are dropped, they would accumulate for as long as the rate is not exceeded.
+func (c *Command) addMatches(matches []RuleMatch) {
+	if len(matches) == 0 {
+		return
+	}
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.Config.RuleQuantity > 0 && c.Config.RulePeriod > 0 {
+		now := time.Now()
+		recent := []RuleMatch{}
+		for _, match := range c.RuleMatches {
+			if now.Sub(match.Time) <= c.Config.RulePeriod {
+				recent = append(recent, match)
+			}
+		}
+		c.RuleMatches = recent
+	}
+	c.RuleMatches = append(c.RuleMatches, matches...)
+}
+
 // checkRule finds a regular expression match to a line from either Stdout or Stderr.
 func checkRule(line []byte, rules []rule) []RuleMatch {
 	var matches []RuleMatch
@@ -330,9 +351,7 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 
 func (c *Command) processStdout(line []byte) {
 	matches := checkRule(line, c.Config.Rules)
-	c.mutex.Lock()
-	c.RuleMatches = append(c.RuleMatches, matches...)
-	c.mutex.Unlock()
+	c.addMatches(matches)
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
@@ -356,9 +375,7 @@ func (c *Command) processStdout(line []byte) {
 
 func (c *Command) processStderr(line []byte) {
 	matches := checkRule(line, c.Config.Rules)
-	c.mutex.Lock()
-	c.RuleMatches = append(c.RuleMatches, matches...)
-	c.mutex.Unlock()
+	c.addMatches(matches)
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-- 
2.43.0


From a79b2d7ae78440d488451cec73bf8bbd40c0b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 37/42] fix: write each relayed line in one piece, so that
 lines stay whole when both streams lead to the same file

---
 pkg/monny/command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 34b4963..e6086a7 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -186,20 +186,20 @@ func (c *Command) Exec() error {
 	go func() {
 		defer wg.Done()
 		for stdoutScanner.Scan() {
-			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {
+			// in one piece, both streams may lead to the same file
+			if _, err := c.out.Write(append(stdoutScanner.Bytes(), '\n')); err != nil {
 				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))
 			}
-			c.out.Write([]byte{'\n'})
 			c.processStdout(stdoutScanner.Bytes())
 		}
 	}()
 	go func() {
 		defer wg.Done()
 		for stderrScanner.Scan() {
-			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {
+			// in one piece, both streams may lead to the same file
+			if _, err := c.err.Write(append(stderrScanner.Bytes(), '\n')); err != nil {
 				c.errors.ReportError(fmt.Errorf("error writing log line to stderr: %+v", err))
 			}
-			c.err.Write([]byte{'\n'})
 			c.processStderr(stderrScanner.Bytes())
 		}
 	}()
-- 
2.43.0


From ef21cdc00a53347181a194a6bf603e90caa490d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 38/42] fix: attempt to deliver a report for an hour as
 documented, the backoff gave up after 15 minutes

---
 pkg/monny/report.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 6fcfc61..efb8971 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -184,7 +184,9 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
-	result <- backoff.Retry(send, backoff.WithContext(backoff.NewExponentialBackOff(), ctx))
+	b := backoff.NewExponentialBackOff()
+	b.MaxElapsedTime = 0 // the parent decides when to give up
+	result <- backoff.Retry(send, backoff.WithContext(b, ctx))
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From b05b766987fcc3176905ec12c3005cc19e25de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 39/42] fix: report the outcome of a command that ends just
 when a limit or an interrupt would end it

The handlers failed to signal a process that had ended already; Exec then returned that error and
monny exited without having sent any report. Such a command is neither killed nor interrupted, it
has finished.
---
 pkg/monny/command.go  | 14 +++++++++++---
 pkg/monny/handlers.go | 18 +++++++++---------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index e6086a7..7763dcc 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -235,19 +235,27 @@ func (c *Command) Exec() error {
 		runFinished <- true
 	}()
 
+	// a command that ends by itself before it could be signalled has finished, whichever of the
+	// events is seen first
 	for {
 		select {
 		case <-runFinished:
 			return c.handler.Finished(c, cmd)
 		case sig := <-signals:
-			return c.handler.Signal(c, cmd, sig)
+			if err := c.handler.Signal(c, cmd, sig); err != os.ErrProcessDone {
+				return err
+			}
 		case <-timeout:
-			return c.handler.Timeout(c, cmd)
+			if err := c.handler.Timeout(c, cmd); err != os.ErrProcessDone {
+				return err
+			}
 		case <-timenotify:
 			c.handler.TimeWarning(c)
 		case <-profileMemory:
 			if err := c.handler.CheckMemory(c, cmd); err != nil {
-				return c.handler.KillOnHighMemory(c, cmd)
+				if err := c.handler.KillOnHighMemory(c, cmd); err != os.ErrProcessDone {
+					return err
+				}
 			}
 		}
 	}
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index ae94c91..fe80ff3 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -62,6 +62,9 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 // Signal is called when a signal is trapped.  The signal is passed on to the child process
 // and a report is sent.
 func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
+	if err := cmd.Process.Signal(sig); err != nil {
+		return err
+	}
 	c.mutex.Lock()
 	c.Finish = time.Now()
 	c.Duration = c.Finish.Sub(c.Start)
@@ -71,9 +74,6 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.mutex.Unlock()
 
 	c.send(proto.Killed)
-	if err := cmd.Process.Signal(sig); err != nil {
-		return err
-	}
 	//fmt.Printf("\n\nProcess received signal: %s\n", sig.String())
 	return nil
 }
@@ -81,6 +81,9 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 // Timeout is called if the process runs longer than the kill timeout setting.
 // A report is sent and the process is killed.
 func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
+	if err := cmd.Process.Signal(os.Kill); err != nil {
+		return err
+	}
 	c.mutex.Lock()
 	c.Killed = true
 	c.KillReason = proto.Timeout
@@ -90,9 +93,6 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.mutex.Unlock()
 
 	c.send(proto.Killed)
-	if err := cmd.Process.Signal(os.Kill); err != nil {
-		return err
-	}
 	//fmt.Printf("\n\nProcess timeout\n")
 	return nil
 }
@@ -140,6 +140,9 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 
 // KillOnHighMemory is called when the memory exceeds the kill setpoint.
 func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
+	if err := cmd.Process.Signal(os.Kill); err != nil {
+		return err
+	}
 	c.mutex.Lock()
 	c.Killed = true
 	c.KillReason = proto.Memory
@@ -149,9 +152,6 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.mutex.Unlock()
 
 	c.send(proto.Killed)
-	if err := cmd.Process.Signal(os.Kill); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 8e33432561553d5bcf4d40fa7f036e3e7ec08fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 40/42] fix: pass on an interrupt that arrives while the
 command is being started

Signals were trapped only some time after the command had been started, an interrupt before that
ended monny and left the command running without supervision.
---
 pkg/monny/command.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 7763dcc..909442e 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -160,6 +160,13 @@ func (c *Command) Exec() error {
 	stdoutScanner.Buffer(nil, maxLineLength)
 	stderrScanner.Buffer(nil, maxLineLength)
 
+	signals := make(chan os.Signal, 1)
+	if !signal.Ignored(os.Interrupt) {
+		// before the command starts, it would not get an interrupt that ends monny; a command
+		// started with ignored interrupts must inherit that
+		signal.Notify(signals, os.Interrupt, os.Kill)
+	}
+
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
 		return err
@@ -207,7 +214,6 @@ func (c *Command) Exec() error {
 	runFinished := make(chan bool, 1)
 	timeout := make(<-chan time.Time, 1)
 	timenotify := make(<-chan time.Time, 1)
-	signals := make(chan os.Signal, 1)
 	profileMemory := make(<-chan time.Time, 1)
 	signal.Notify(signals, os.Interrupt, os.Kill)
 
-- 
2.43.0


From bd46b8c7d8c8aa197fdd280b30fa36348ed0f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 41/42] fix: apply the limits to the command, not to the time
 it takes to flush its output

A command that had ended within its limits got a time warning, or was treated as killed, when closing
monny's output took longer than the limit, as it does for a socket that is not read.
---
 pkg/monny/command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 909442e..493f16e 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -211,6 +211,7 @@ func (c *Command) Exec() error {
 		}
 	}()
 
+	ended := make(chan bool, 1)
 	runFinished := make(chan bool, 1)
 	timeout := make(<-chan time.Time, 1)
 	timenotify := make(<-chan time.Time, 1)
@@ -235,6 +236,7 @@ func (c *Command) Exec() error {
 	go func() {
 		wg.Wait()
 		cmd.Wait()
+		ended <- true
 		c.out.Close()
 		c.err.Close()
 		c.Cleanup()
@@ -245,6 +247,9 @@ func (c *Command) Exec() error {
 	// events is seen first
 	for {
 		select {
+		case <-ended:
+			// limits apply to the command, not to the time it takes to flush its output
+			timeout, timenotify, profileMemory = nil, nil, nil
 		case <-runFinished:
 			return c.handler.Finished(c, cmd)
 		case sig := <-signals:
-- 
2.43.0


From 61f07397deb6613145f53a17fb23a2deb73b0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 42/42] fix: refuse a negative memory limit instead of taking
 it for a huge one

---
 pkg/monny/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index d809241..e438e6a 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -231,7 +231,7 @@ func MemoryWarn(mem string) ConfigOption {
 		default:
 			warn, err = strconv.Atoi(mem)
 		}
-		if err != nil {
+		if err != nil || warn < 0 {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
 		c.MemoryWarn = uint64(warn)
@@ -257,7 +257,7 @@ func MemoryKill(mem string) ConfigOption {
 		default:
 			kill, err = strconv.Atoi(mem)
 		}
-		if err != nil {
+		if err != nil || kill < 0 {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
 		c.MemoryKill = uint64(kill)
-- 
2.43.0

