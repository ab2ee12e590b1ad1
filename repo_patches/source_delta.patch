From b17f9abec193d3dbbe694eea764091b2c220122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 01/57] fix: parse streams with long lines and report read
 errors

ParseRaw ignored the error of its line scanner. A line of more than 64KB
silently dropped the rest of the file, and so did a failing reader.
---
 yaml/parse.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..2a9deaa 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -102,9 +102,20 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	var resources []*RawResource
 	var resource *RawResource
 
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		line := scanner.Text()
+	reader := bufio.NewReader(r)
+	for eof := false; !eof; {
+		line, err := reader.ReadString(newline)
+		if err == io.EOF {
+			// the last line may omit the newline.
+			eof = true
+			if line == "" {
+				break
+			}
+		} else if err != nil {
+			return nil, err
+		}
+		line = strings.TrimSuffix(line, "\n")
+		line = strings.TrimSuffix(line, "\r")
 		if isSeparator(line) {
 			resource = nil
 		}
@@ -118,9 +129,6 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		if isTerminator(line) {
 			break
 		}
-		if scanner.Err() == io.EOF {
-			break
-		}
 		resource.Data = append(
 			resource.Data,
 			line...,
-- 
2.43.0


From 87559e2a484810f3ae41a852a3f11ddf081af2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 02/57] fix: do not read carriage returns before a line break
 as content

A line that ends with several carriage returns lost one each time the file
was read and written back, so that a file signed in place did not verify.
---
 yaml/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 2a9deaa..9691fde 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -115,7 +115,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			return nil, err
 		}
 		line = strings.TrimSuffix(line, "\n")
-		line = strings.TrimSuffix(line, "\r")
+		line = strings.TrimRight(line, "\r")
 		if isSeparator(line) {
 			resource = nil
 		}
-- 
2.43.0


From fc9804f1a5c33b1f353718a40e7e8c013f5f23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 03/57] fix: return no signed output for a file that cannot be
 parsed

WriteTo returned a file made of the signature only along with the error.
---
 yaml/signer/signer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/signer/signer.go b/yaml/signer/signer.go
index 99d46fc..a7316c3 100644
--- a/yaml/signer/signer.go
+++ b/yaml/signer/signer.go
@@ -93,7 +93,10 @@ func Verify(data []byte, key Key) (bool, error) {
 // signature is appended to the end of the document.
 func WriteTo(data []byte, hmac string) ([]byte, error) {
 	res, err := yaml.ParseRawBytes(data)
-	return upsert(res, hmac), err
+	if err != nil {
+		return nil, err
+	}
+	return upsert(res, hmac), nil
 }
 
 // helper function extracts the hex-encoded signature
-- 
2.43.0


From a0c593b3fc35919e1c681bcb484803ac7a222ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 04/57] fix: lint the dependencies of services

A service could depend on a step that does not exist, or on itself.
---
 yaml/linter/linter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..da5e9ec 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -106,6 +106,11 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		if err != nil {
 			return err
 		}
+
+		err = checkDeps(container, names)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From aad1bbc7c8be64099d5ec06f15df1786bb8521c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 05/57] fix: reject empty list entries when linting

An empty step, service, volume, mount or port crashed the linter.
---
 yaml/linter/linter.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index da5e9ec..aca6752 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -79,6 +79,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			return errors.New("linter: invalid or missing step")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +99,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			return errors.New("linter: invalid or missing service")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -164,6 +170,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			return errors.New("linter: invalid or missing volume mount")
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -174,6 +183,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			return errors.New("linter: invalid or missing port")
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -191,6 +203,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			return errors.New("linter: invalid or missing volume")
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0


From 727bda201e2d70b13efb13c40e87ad307bee1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 06/57] fix: ignore empty list entries when compiling

An empty step, service, volume, mount or port crashed the compiler.
---
 yaml/compiler/compiler.go | 11 ++++++++++-
 yaml/compiler/convert.go  |  3 +++
 yaml/compiler/step.go     |  3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..42857ef 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -73,7 +73,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	isSerial := true
 	for _, step := range from.Steps {
-		if len(step.DependsOn) != 0 {
+		if step != nil && len(step.DependsOn) != 0 {
 			isSerial = false
 			break
 		}
@@ -115,6 +115,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// file, convert to a runtime volume and append to the
 	// specification.
 	for _, from := range from.Volumes {
+		if from == nil {
+			continue
+		}
 		to := &engine.Volume{
 			Metadata: engine.Metadata{
 				UID:       rand.String(),
@@ -157,6 +160,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, service := range from.Services {
+		if service == nil {
+			continue
+		}
 		step := createStep(spec, service)
 		// note that all services are automatically
 		// set to run in detached mode.
@@ -191,6 +197,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, container := range from.Steps {
+		if container == nil {
+			continue
+		}
 		var step *engine.Step
 		switch {
 		case container.Build != nil:
diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..6d875e2 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -28,6 +28,9 @@ func toIgnoreErr(from *yaml.Container) bool {
 func toPorts(from *yaml.Container) []*engine.Port {
 	var ports []*engine.Port
 	for _, port := range from.Ports {
+		if port == nil {
+			continue
+		}
 		ports = append(ports, toPort(port))
 	}
 	return ports
diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..5502f97 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -71,6 +71,9 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the volumes to the container def.
 	for _, vol := range src.Volumes {
+		if vol == nil {
+			continue
+		}
 		// the user should never be able to directly
 		// mount the docker socket. This should be
 		// restricted by the linter, but we place this
-- 
2.43.0


From d3dcef13541be9814aad3f74c7c13280c377609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 07/57] fix: order steps after the clone step when only a
 service has dependencies

The runtime executes a plan as a graph as soon as any of its steps has a
dependency. If that was a service, no step waited for the clone step.
---
 yaml/compiler/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 42857ef..77de197 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -78,6 +78,12 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			break
 		}
 	}
+	for _, service := range from.Services {
+		if service != nil && len(service.DependsOn) != 0 {
+			isSerial = false
+			break
+		}
+	}
 
 	spec := &engine.Spec{
 		Metadata: engine.Metadata{
-- 
2.43.0


From ce4137fde8b71f25a74b99dd31598070245b2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 08/57] fix: honour the working directory of services

The working directory of a service without commands was dropped, unless
the service also asked to be detached.
---
 yaml/compiler/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 77de197..5d129f8 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -173,6 +173,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		// note that all services are automatically
 		// set to run in detached mode.
 		step.Detach = true
+		if len(service.Commands) == 0 {
+			step.WorkingDir = service.WorkingDir
+		}
 		setupWorkingDir(service, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
 		c.setupWorkspaceMount(step, base, dir, workspace)
-- 
2.43.0


From a411aae2673bf8341b4aab70f62a17d7f1974904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 09/57] fix: alias an image built under two spellings
 consistently

The alias used by later steps depended on the map iteration order.
---
 yaml/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 5d129f8..f68fb8e 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -213,7 +213,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
 		}
-- 
2.43.0


From c3b3f1a1a8cfba9ea180ed435f0d02102ed6386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 10/57] fix: do not share the dependency list of a step with
 its pipeline

Adding the clone dependency wrote to the array of the source pipeline if it
had room, a data race if the pipeline is compiled concurrently.
---
 yaml/compiler/step.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 5502f97..38b68d0 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -34,7 +34,7 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: append([]string(nil), src.DependsOn...),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
 			Args:       src.Command,
@@ -160,7 +160,7 @@ func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: append([]string(nil), src.DependsOn...),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
 			Args:       []string{"--build"},
-- 
2.43.0


From b04b8aa0029535ce946ed25d5544d29120d94af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 11/57] fix: make settings that differ in case only
 deterministic

Of two settings with the same variable name a random one was used.
---
 yaml/compiler/step.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 38b68d0..934f5f2 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -108,7 +109,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the settings variables to the
 	// container definition.
-	for key, value := range src.Settings {
+	var settings []string
+	for key := range src.Settings {
+		settings = append(settings, key)
+	}
+	sort.Strings(settings)
+	for _, key := range settings {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
-- 
2.43.0


From cfe4225575a2c228f61b08164f2997a230412582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 12/57] fix: settings override equally named variables from
 secrets

A variable could be defined twice, once as plain text and once as a secret.
---
 yaml/compiler/step.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 934f5f2..b86a7d3 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -124,6 +124,11 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 		// variables, prefixed with PLUGIN_
 		key = "PLUGIN_" + strings.ToUpper(key)
 
+		// the setting replaces a variable of that name, which
+		// may be a literal or sourced from a secret.
+		delete(dst.Envs, key)
+		dst.Secrets = removeSecret(dst.Secrets, key)
+
 		// if the setting parameter is sources from the
 		// secret we create a secret enviornment variable.
 		if value.Secret != "" {
@@ -212,3 +217,15 @@ func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	return dst
 }
+
+// helper function removes the secret variable with the
+// given environment name.
+func removeSecret(from []*engine.SecretVar, env string) []*engine.SecretVar {
+	var to []*engine.SecretVar
+	for _, sec := range from {
+		if sec.Env != env {
+			to = append(to, sec)
+		}
+	}
+	return to
+}
-- 
2.43.0


From ec9f60d71b72b330a63f91da028de8dbcf9189e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 13/57] fix: give the host workspace volume its namespace and
 labels

WithLables crashed on pipelines compiled with a host workspace.
---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 29199b18460b7a09e1e63de4427ac405b9cf0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 14/57] fix: do not execute command substitutions while tracing

Backquotes in the trace of a command were not escaped, so that the
substituted command ran once more before the command itself.
---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 65b781f7b5e9bed3037dc0eafdd4927c1fc32eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 15/57] fix: escape single quotes in the trace of windows
 commands

A single quote ended the quoted text, so that the rest of the command was
evaluated by the trace.
---
 yaml/compiler/script_win.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..cf390bb 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "'", "''", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
-- 
2.43.0


From eb5b608b539329fa683fc21f5e0ec16fb14bdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 16/57] fix: do not confuse the script of a step with the
 credentials file

Files are looked up by name. The script of a step called .git-credentials
was replaced with the content of the credentials file.
---
 yaml/compiler/script_posix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index 1628326..b93ba00 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -44,12 +44,12 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 		Metadata: engine.Metadata{
 			UID:       rand.String(),
 			Namespace: spec.Metadata.Namespace,
-			Name:      src.Name,
+			Name:      dst.Metadata.UID,
 		},
 		Data: []byte(script),
 	})
 	dst.Files = append(dst.Files, &engine.FileMount{
-		Name: src.Name,
+		Name: dst.Metadata.UID,
 		Path: "/usr/drone/bin/init",
 		Mode: 0777,
 	})
-- 
2.43.0


From 0ee530ff3de37dab86268d65e056199210cae67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 17/57] fix: do not ignore conditions that cannot be read

A string instead of a list under include or exclude was dropped, so that
the condition accepted everything. It is now read as a list of one, and
other values that do not fit are errors.
---
 yaml/cond.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index f6716ed..57b48f8 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -79,8 +79,8 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var out1 string
 	var out2 []string
 	var out3 = struct {
-		Include []string
-		Exclude []string
+		Include stringSlice
+		Exclude stringSlice
 	}{}
 
 	err := unmarshal(&out1)
@@ -89,8 +89,14 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return nil
 	}
 
-	unmarshal(&out2)
-	unmarshal(&out3)
+	err = unmarshal(&out2)
+	if err != nil {
+		out2 = nil
+		err = unmarshal(&out3)
+	}
+	if err != nil {
+		return err
+	}
 
 	c.Exclude = out3.Exclude
 	c.Include = append(
@@ -100,3 +106,17 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	return nil
 }
+
+// stringSlice is a list of strings that can be defined
+// as a single string.
+type stringSlice []string
+
+// UnmarshalYAML implements yml unmarshalling.
+func (s *stringSlice) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var out1 string
+	if err := unmarshal(&out1); err == nil {
+		*s = []string{out1}
+		return nil
+	}
+	return unmarshal((*[]string)(s))
+}
-- 
2.43.0


From 500f2058f1f68481745ad7d48ba0293abfebff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 18/57] fix: encode empty variables and settings

Variables and settings with an empty value were encoded as null and lost.
---
 yaml/env.go   | 9 ++++++---
 yaml/param.go | 5 +----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/yaml/env.go b/yaml/env.go
index 9b8e002..6e2ea79 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,8 +50,11 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
-	if v.Value != "" {
-		return v.Value, nil
+	if v.Value == "null" || v.Value == "~" {
+		// the short form would be read as no variable.
+		m := map[string]interface{}{}
+		m["value"] = v.Value
+		return m, nil
 	}
-	return nil, nil
+	return v.Value, nil
 }
diff --git a/yaml/param.go b/yaml/param.go
index 33cfbdb..9167d6a 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -51,8 +51,5 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = p.Secret
 		return m, nil
 	}
-	if p.Value != "" {
-		return p.Value, nil
-	}
-	return nil, nil
+	return p.Value, nil
 }
-- 
2.43.0


From ccc651d18eae23ff6cb94454b3f9c2fd2f7aba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 19/57] fix: encode settings with nested values as JSON

A manifest with a mapping inside a setting could not be encoded as JSON, and
decoding turned integers into floating point numbers, that are passed to the
plugin in another notation.
---
 yaml/param.go | 79 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/yaml/param.go b/yaml/param.go
index 9167d6a..d64eea1 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,6 +14,13 @@
 
 package yaml
 
+import (
+	"bytes"
+	"encoding/json"
+	"fmt"
+	"strconv"
+)
+
 type (
 	// Parameter represents an configuration parameter that
 	// can be defined as a literal or as a reference
@@ -53,3 +60,75 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	}
 	return p.Value, nil
 }
+
+// MarshalJSON implements json marshalling.
+func (p *Parameter) MarshalJSON() ([]byte, error) {
+	out := struct {
+		Value  interface{} `json:"value,omitempty"`
+		Secret string      `json:"from_secret,omitempty"`
+	}{toJSON(p.Value), p.Secret}
+	return json.Marshal(out)
+}
+
+// UnmarshalJSON implements json unmarshalling.
+func (p *Parameter) UnmarshalJSON(b []byte) error {
+	out := struct {
+		Value  interface{} `json:"value"`
+		Secret string      `json:"from_secret"`
+	}{}
+	dec := json.NewDecoder(bytes.NewReader(b))
+	dec.UseNumber()
+	if err := dec.Decode(&out); err != nil {
+		return err
+	}
+	p.Value = fromJSON(out.Value)
+	p.Secret = out.Secret
+	return nil
+}
+
+// helper function converts a value unmarshaled by the yaml
+// library to a value that can be marshaled as json.
+func toJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		out := make([]interface{}, len(v))
+		for i := range v {
+			out[i] = toJSON(v[i])
+		}
+		return out
+	case map[interface{}]interface{}:
+		out := make(map[string]interface{}, len(v))
+		for k := range v {
+			out[fmt.Sprint(k)] = toJSON(v[k])
+		}
+		return out
+	default:
+		return v
+	}
+}
+
+// helper function converts a value unmarshaled from json
+// to the value the yaml library would have unmarshaled.
+func fromJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i := range v {
+			v[i] = fromJSON(v[i])
+		}
+		return v
+	case map[string]interface{}:
+		out := make(map[interface{}]interface{}, len(v))
+		for k := range v {
+			out[k] = fromJSON(v[k])
+		}
+		return out
+	default:
+		return v
+	}
+}
-- 
2.43.0


From bf4de30f04aeb05fcf2f33a7a9abbe5e53fbd91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 20/57] fix: quote strings that would not be read as the same
 string

Strings such as null, !x, &x, *, - or with control characters were written
as they are, and read as something else or not at all.
---
 yaml/pretty/util.go   | 26 ++++++++++++++++++++++++++
 yaml/pretty/writer.go | 18 +++++++++++++-----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..8ea38a2 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -16,7 +16,9 @@ package pretty
 
 import (
 	"strings"
+	"unicode"
 
+	goyaml "github.com/buildkite/yaml"
 	"github.com/drone/drone-yaml/yaml"
 )
 
@@ -131,6 +133,30 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the unquoted string is
+// read as the same string. If the string is the value of an
+// untyped field, it must not be read as another type.
+func isPlain(s string, untyped bool) bool {
+	switch s {
+	case "-", "?", "<<":
+		return false
+	}
+	for _, r := range s {
+		if !unicode.IsPrint(r) {
+			return false
+		}
+	}
+	doc := []byte("k: " + s + "\n")
+	if untyped {
+		out := map[string]interface{}{}
+		err := goyaml.Unmarshal(doc, &out)
+		return err == nil && out["k"] == s
+	}
+	out := map[string]string{}
+	err := goyaml.Unmarshal(doc, &out)
+	return err == nil && out["k"] == s
+}
+
 func chunk(s string, chunkSize int) []string {
 	if len(s) == 0 {
 		return []string{s}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..d48fdf0 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -226,6 +226,14 @@ func writeEncode(w writer, v string) {
 	}
 }
 
+func writeString(w writer, v string) {
+	if isPlain(v, false) {
+		writeEncode(w, v)
+	} else {
+		fmt.Fprintf(w, "%q", v)
+	}
+}
+
 func writeValue(w writer, v interface{}) {
 	if v == nil {
 		w.WriteByte('~')
@@ -258,7 +266,7 @@ func writeScalar(w writer, v interface{}) {
 	case float64:
 		writeFloat(w, v)
 	case string:
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
 
@@ -294,7 +302,7 @@ func writeSequenceStr(w writer, v []string) {
 		}
 		w.WriteByte('-')
 		w.WriteByte(' ')
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
 
@@ -316,7 +324,7 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeString(w, k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
@@ -353,9 +361,9 @@ func writeMappingStr(w writer, v map[string]string) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeString(w, k)
 		w.WriteByte(':')
 		w.WriteByte(' ')
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
-- 
2.43.0


From 63c82faf8f9cf5e90be28feeb421ee812c34c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 21/57] fix: keep the type of strings in settings

Strings in settings that look like a number, a boolean or null were written
without quotes and read as values of that type.
---
 yaml/pretty/container.go |  2 +-
 yaml/pretty/util.go      |  2 +-
 yaml/pretty/writer.go    | 29 ++++++++++++++++++++++++++---
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..7b0b308 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -195,7 +195,7 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 		v := v[k]
 		if v.Secret == "" {
 			w.IncludeZero()
-			w.WriteTagValue(k, v.Value)
+			w.WriteTagValue(k, toOpaque(v.Value))
 			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 8ea38a2..33eb5ac 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -24,7 +24,7 @@ import (
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, int, int64, float64, uint64, opaque:
 		return true
 	case yaml.BytesSize:
 		return true
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index d48fdf0..86c6ab0 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -234,13 +234,32 @@ func writeString(w writer, v string) {
 	}
 }
 
+// opaque is a string of an untyped value. It is quoted if it
+// looks like a value of another type.
+type opaque string
+
+func toOpaque(v interface{}) interface{} {
+	if s, ok := v.(string); ok {
+		return opaque(s)
+	}
+	return v
+}
+
+func writeOpaque(w writer, v opaque) {
+	if isPlain(string(v), true) {
+		writeEncode(w, string(v))
+	} else {
+		fmt.Fprintf(w, "%q", string(v))
+	}
+}
+
 func writeValue(w writer, v interface{}) {
 	if v == nil {
 		w.WriteByte('~')
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, float64, string, uint64, opaque:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -267,6 +286,10 @@ func writeScalar(w writer, v interface{}) {
 		writeFloat(w, v)
 	case string:
 		writeString(w, v)
+	case uint64:
+		w.WriteString(strconv.FormatUint(v, 10))
+	case opaque:
+		writeOpaque(w, v)
 	}
 }
 
@@ -284,7 +307,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeValue(w, toOpaque(v))
 		w.IndentDecrease()
 	}
 }
@@ -319,7 +342,7 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 	}
 	sort.Strings(keys)
 	for i, k := range keys {
-		v := v[k]
+		v := toOpaque(v[k])
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
-- 
2.43.0


From 230a4c30cab3b924c38b99cefa3b32ee7f2a82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 22/57] fix: keep the values of settings with keys that are no
 strings

Their values were looked up under the text of the key, and written as null.
---
 yaml/pretty/writer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 86c6ab0..74e9c34 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -335,19 +335,24 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte('}')
 		return
 	}
-	var keys []string
+	var keys []interface{}
 	for k := range v {
-		s := fmt.Sprint(k)
-		keys = append(keys, s)
+		keys = append(keys, k)
 	}
-	sort.Strings(keys)
+	sort.Slice(keys, func(i, j int) bool {
+		a, b := fmt.Sprint(keys[i]), fmt.Sprint(keys[j])
+		if a == b {
+			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+		}
+		return a < b
+	})
 	for i, k := range keys {
 		v := toOpaque(v[k])
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeString(w, k)
+		writeValue(w, toOpaque(k))
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-- 
2.43.0


From b3368a486c6bde52f411b7cfff95a2ead199f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 23/57] fix: write infinity and not-a-number in yaml notation

The Go notation was read as a string.
---
 yaml/pretty/writer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 74e9c34..229a1d0 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -196,6 +197,17 @@ func writeBool(w writer, v bool) {
 }
 
 func writeFloat(w writer, v float64) {
+	switch {
+	case math.IsNaN(v):
+		w.WriteString(".nan")
+		return
+	case math.IsInf(v, 1):
+		w.WriteString(".inf")
+		return
+	case math.IsInf(v, -1):
+		w.WriteString("-.inf")
+		return
+	}
 	w.WriteString(
 		strconv.FormatFloat(v, 'g', -1, 64),
 	)
-- 
2.43.0


From 88d27838e591e094ef2310a3790585b9aab96498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 24/57] fix: do not round sizes

Sizes were written with four significant digits.
---
 yaml/pretty/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 229a1d0..f2de8f9 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 
+	"github.com/docker/go-units"
 	"github.com/drone/drone-yaml/yaml"
 )
 
@@ -282,6 +283,11 @@ func writeValue(w writer, v interface{}) {
 	case map[string]string:
 		writeMappingStr(w, v)
 	case yaml.BytesSize:
+		// the human-readable size is rounded.
+		if n, err := units.RAMInBytes(v.String()); err != nil || n != int64(v) {
+			writeInt64(w, int64(v))
+			return
+		}
 		writeValue(w, v.String())
 	}
 }
-- 
2.43.0


From 7037438d59270853889fb085e02bba3d12840d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 25/57] fix: format empty variables and settings

A variable with an empty value was dropped, and null entries crashed the
printer.
---
 yaml/pretty/container.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index 7b0b308..bf4ce20 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -124,8 +124,20 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			w.IncludeZero()
+			w.WriteTagValue(k, nil)
+			w.ExcludeZero()
+		} else if v.Value == "null" || v.Value == "~" {
+			// the short form would be read as no variable.
+			w.WriteTag(k)
+			w.IndentIncrease()
+			w.WriteTagValue("value", v.Value)
+			w.IndentDecrease()
+		} else if v.Secret == "" {
+			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
+			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
@@ -193,7 +205,11 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			w.IncludeZero()
+			w.WriteTagValue(k, nil)
+			w.ExcludeZero()
+		} else if v.Secret == "" {
 			w.IncludeZero()
 			w.WriteTagValue(k, toOpaque(v.Value))
 			w.ExcludeZero()
-- 
2.43.0


From 7f6e96e3eb37172021ca79186fe648a77c459e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 26/57] fix: format empty list entries and empty objects

Empty entries of a list crashed the printer or were dropped, and empty
objects were written as null.
---
 yaml/pretty/container.go | 37 +++++++++++++++++++++++++++++++++++--
 yaml/pretty/pipeline.go  | 18 ++++++++++++++++++
 yaml/pretty/writer.go    |  7 +++++++
 3 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index bf4ce20..672301e 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -29,7 +29,10 @@ func printContainer(w writer, v *yaml.Container) {
 	if v.Build != nil {
 		printBuild(w, v.Build)
 	}
-	if v.Push != nil {
+	if v.Push != nil && v.Push.Image == "" {
+		w.WriteTag("push")
+		w.WriteString(" {}")
+	} else if v.Push != nil {
 		w.WriteTagValue("push", v.Push.Image)
 	}
 
@@ -79,7 +82,10 @@ func printContainer(w writer, v *yaml.Container) {
 
 // helper function pretty prints the build node.
 func printBuild(w writer, v *yaml.Build) {
-	if shortBuild(v) {
+	if shortBuild(v) && v.Image == "" {
+		w.WriteTag("build")
+		w.WriteString(" {}")
+	} else if shortBuild(v) {
 		w.WriteTagValue("build", v.Image)
 	} else {
 		w.WriteTag("build")
@@ -103,12 +109,19 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.DevicePath)
 		s.IndentDecrease()
+		if s.index == 0 {
+			writeItem(w, "{}")
+		}
 	}
 }
 
@@ -152,6 +165,10 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -174,10 +191,16 @@ func printPorts(w writer, v []*yaml.Port) {
 // helper function pretty prints the resource mapping.
 func printResources(w writer, v *yaml.Resources) {
 	w.WriteTag("resources")
+	if v.Limits == nil && v.Requests == nil {
+		w.WriteString(" {}")
+	}
 	w.IndentIncrease()
 
 	if v.Limits != nil {
 		w.WriteTag("limits")
+		if v.Limits.CPU == 0 && v.Limits.Memory == 0 {
+			w.WriteString(" {}")
+		}
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Limits.CPU)
 		w.WriteTagValue("memory", v.Limits.Memory)
@@ -185,6 +208,9 @@ func printResources(w writer, v *yaml.Resources) {
 	}
 	if v.Requests != nil {
 		w.WriteTag("requests")
+		if v.Requests.CPU == 0 && v.Requests.Memory == 0 {
+			w.WriteString(" {}")
+		}
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Requests.CPU)
 		w.WriteTagValue("memory", v.Requests.Memory)
@@ -227,12 +253,19 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.MountPath)
 		s.IndentDecrease()
+		if s.index == 0 {
+			writeItem(w, "{}")
+		}
 	}
 }
 
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..d479bb6 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -46,6 +46,7 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 		w.WriteTag("steps")
 		for _, step := range v.Steps {
 			if step == nil {
+				writeItem(w, "~")
 				continue
 			}
 			seq := new(indexWriter)
@@ -53,6 +54,9 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.IndentIncrease()
 			printContainer(seq, step)
 			seq.IndentDecrease()
+			if seq.index == 0 {
+				writeItem(w, "{}")
+			}
 		}
 	}
 
@@ -60,6 +64,7 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 		w.WriteTag("services")
 		for _, step := range v.Services {
 			if step == nil {
+				writeItem(w, "~")
 				continue
 			}
 			seq := new(indexWriter)
@@ -67,6 +72,9 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.IndentIncrease()
 			printContainer(seq, step)
 			seq.IndentDecrease()
+			if seq.index == 0 {
+				writeItem(w, "{}")
+			}
 		}
 	}
 
@@ -207,6 +215,10 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			writeItem(w, "~")
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -228,12 +240,18 @@ func printVolumes(w writer, v []*yaml.Volume) {
 
 		if v := v.HostPath; v != nil {
 			s.WriteTag("host")
+			if v.Path == "" {
+				w.WriteString(" {}")
+			}
 			s.IndentIncrease()
 			s.WriteTagValue("path", v.Path)
 			s.IndentDecrease()
 		}
 
 		s.IndentDecrease()
+		if s.index == 0 {
+			writeItem(w, "{}")
+		}
 	}
 }
 
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index f2de8f9..5565bfe 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -191,6 +191,13 @@ func (w *indexWriter) WriteTagValue(k, v interface{}) {
 // helper functions
 //
 
+// writeItem appends a sequence entry without content.
+func writeItem(w writer, s string) {
+	w.WriteByte('\n')
+	w.Indent()
+	w.WriteString("- " + s)
+}
+
 func writeBool(w writer, v bool) {
 	w.WriteString(
 		strconv.FormatBool(v),
-- 
2.43.0


From 071e364d431cdf657f950c8599da7f64a724e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 27/57] fix: format registry resources

Registry resources were dropped.
---
 yaml/pretty/pretty.go   |  2 ++
 yaml/pretty/registry.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)
 create mode 100644 yaml/pretty/registry.go

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index 1080c46..ff2390f 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -29,6 +29,8 @@ func Print(w io.Writer, v *yaml.Manifest) {
 			printCron(state, t)
 		case *yaml.Secret:
 			printSecret(state, t)
+		case *yaml.Registry:
+			printRegistry(state, t)
 		case *yaml.Signature:
 			printSignature(state, t)
 		case *yaml.Pipeline:
diff --git a/yaml/pretty/registry.go b/yaml/pretty/registry.go
new file mode 100644
index 0000000..4ff5d4b
--- /dev/null
+++ b/yaml/pretty/registry.go
@@ -0,0 +1,28 @@
+// Copyright 2019 Drone IO, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package pretty
+
+import "github.com/drone/drone-yaml/yaml"
+
+// helper function pretty prints the registry resource.
+func printRegistry(w writer, v *yaml.Registry) {
+	w.WriteString("---")
+	w.WriteTagValue("version", v.Version)
+	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
+	w.WriteTagValue("data", v.Data)
+	w.WriteByte('\n')
+	w.WriteByte('\n')
+}
-- 
2.43.0


From 5f732ff33be3edf6ee822d27a56cb4034ba3ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 28/57] fix: format the type of cron resources

---
 yaml/pretty/cron.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/pretty/cron.go b/yaml/pretty/cron.go
index 6a835d2..45e228d 100644
--- a/yaml/pretty/cron.go
+++ b/yaml/pretty/cron.go
@@ -21,6 +21,7 @@ func printCron(w writer, v *yaml.Cron) {
 	w.WriteString("---")
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
 	w.WriteTagValue("name", v.Name)
 	printSpec(w, v)
 	w.WriteByte('\n')
-- 
2.43.0


From 5a60c0806198db5ae68286b358c64fdbc302bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 29/57] fix: format the name of secrets exactly once

The name was dropped for a secret without content, and written twice for a
secret with both data and an external reference.
---
 yaml/pretty/secret.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 5a6b63f..c1eed60 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -30,12 +30,11 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("kind", v.Kind)
 	w.WriteTagValue("type", v.Type)
 
+	w.WriteTagValue("name", v.Name)
 	if len(v.Data) > 0 {
-		w.WriteTagValue("name", v.Name)
 		printData(w, v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
-		w.WriteTagValue("name", v.Name)
 		w.WriteByte('\n')
 		printGet(w, v.Get)
 	}
-- 
2.43.0


From 8f4c067c0c0f9ae49b33520e0c9712f3a9751d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 30/57] fix: format secrets with any text as data

Data was split inside of characters, and control characters were written as
they are, which cannot be read back.
---
 yaml/pretty/secret.go |  6 +++++-
 yaml/pretty/util.go   | 25 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index c1eed60..eeb5654 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -74,11 +74,15 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 }
 
 func printData(w writer, d string) {
+	d = spaceReplacer.Replace(d)
+	if len(d) == 0 || !isPrintable(d) {
+		w.WriteTagValue("data", d)
+		return
+	}
 	w.WriteTag("data")
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-	d = spaceReplacer.Replace(d)
 	for _, s := range chunk(d, 60) {
 		w.WriteByte('\n')
 		w.Indent()
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 33eb5ac..80724fa 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	goyaml "github.com/buildkite/yaml"
 	"github.com/drone/drone-yaml/yaml"
@@ -133,6 +134,17 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the string has no control
+// characters, line breaks or similar.
+func isPrintable(s string) bool {
+	for _, r := range s {
+		if !unicode.IsPrint(r) {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function returns true if the unquoted string is
 // read as the same string. If the string is the value of an
 // untyped field, it must not be read as another type.
@@ -141,10 +153,8 @@ func isPlain(s string, untyped bool) bool {
 	case "-", "?", "<<":
 		return false
 	}
-	for _, r := range s {
-		if !unicode.IsPrint(r) {
-			return false
-		}
+	if !isPrintable(s) {
+		return false
 	}
 	doc := []byte("k: " + s + "\n")
 	if untyped {
@@ -162,11 +172,14 @@ func chunk(s string, chunkSize int) []string {
 		return []string{s}
 	}
 	var chunks []string
-	for i := 0; i < len(s); i += chunkSize {
-		nn := i + chunkSize
+	for i, nn := 0, 0; i < len(s); i = nn {
+		nn = i + chunkSize
 		if nn > len(s) {
 			nn = len(s)
 		}
+		for nn < len(s) && !utf8.RuneStart(s[nn]) {
+			nn++
+		}
 		chunks = append(chunks, s[i:nn])
 	}
 	return chunks
-- 
2.43.0


From e3e6ae25fbea21512595c1df733016a837b0c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 31/57] fix: save the result of convert with its own flag

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From d6ea30cb4b07665aa77f55c21561303531a00b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 32/57] fix: expand the matrix in a deterministic order,
 ignoring empty axes

---
 yaml/converter/legacy/matrix/matrix.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..666bec2 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -63,6 +64,11 @@ func calc(matrix Matrix) []Axis {
 	var perm int
 	var tags []string
 	for k, v := range matrix {
+		// an axis with no values does not contribute to
+		// the permutations.
+		if len(v) == 0 {
+			continue
+		}
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
@@ -70,6 +76,10 @@ func calc(matrix Matrix) []Axis {
 		tags = append(tags, k)
 	}
 
+	// the order of the permutations should only depend on
+	// the matrix, and not on the map iteration order.
+	sort.Strings(tags)
+
 	// structure to hold the transformed result set
 	axisList := []Axis{}
 
-- 
2.43.0


From 000f774f02e757c8bee6a2c11c8fb29fff57b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 33/57] fix: convert legacy pipelines with an empty matrix

---
 yaml/converter/legacy/internal/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..e4828e6 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -182,13 +182,17 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		pipeline.PullSecrets = []string{".dockerconfigjson"}
 	}
 
+	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err := matrix.Parse(d)
+		axes, err = matrix.Parse(d)
 
 		if err != nil {
 			return nil, err
 		}
+	}
 
+	// a matrix without permutations is not a matrix build.
+	if len(axes) != 0 {
 		for index, environ := range axes {
 			current := pipeline
 			current.Name = fmt.Sprintf("matrix-%d", index+1)
-- 
2.43.0


From 0674ee0d8075fae9fe1414a3f5f24d7ddd7fa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 34/57] fix: a legacy step must meet all its matrix conditions

---
 yaml/converter/legacy/internal/config.go | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index e4828e6..a17760c 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -204,12 +204,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
+				if matchMatrix(service.When.Matrix, environ) {
+					services = append(services, service)
 				}
 			}
 			current.Services = services
@@ -221,12 +217,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
+				if matchMatrix(step.When.Matrix, environ) {
+					steps = append(steps, step)
 				}
 			}
 			current.Steps = steps
@@ -469,6 +461,17 @@ func toWorkspacePath(link string) string {
 	return "src/" + hostname + "/" + path
 }
 
+// helper function returns true if the axis meets all matrix
+// conditions.
+func matchMatrix(conditions map[string]string, axis matrix.Axis) bool {
+	for key, value := range conditions {
+		if v, ok := axis[key]; !ok || v != value {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function returns true if the slice the string.
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
-- 
2.43.0


From e3e7fd2ff6ab0b67afebe568d5971489c74b8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 35/57] fix: substitute legacy matrix variables in a
 deterministic order

---
 yaml/converter/legacy/internal/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index a17760c..2666b8a 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -231,7 +231,14 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			transformed := string(marshaled)
 
-			for key, value := range environ {
+			var keys []string
+			for key := range environ {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+
+			for _, key := range keys {
+				value := environ[key]
 				if strings.Contains(value, "\n") {
 					value = fmt.Sprintf("%q", value)
 				}
-- 
2.43.0


From fae29b3ce4be34c66cbb104bf52f86b23655f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 36/57] fix: rename duplicate legacy steps to unique names

---
 yaml/converter/legacy/internal/config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 2666b8a..3711a90 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -137,8 +137,12 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		if _, ok := names[step.Name]; ok {
-			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
+		name := step.Name
+		for n := i; ; n++ {
+			if _, ok := names[step.Name]; !ok {
+				break
+			}
+			step.Name = fmt.Sprintf("%s_%d", name, n)
 		}
 		names[step.Name] = struct{}{}
 	}
-- 
2.43.0


From e11aab25da978e77c2cf2e9cb8306db44db9062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 37/57] fix: declare the volumes of legacy clone containers

---
 yaml/converter/legacy/internal/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 3711a90..d6e79fe 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -436,6 +436,7 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 	containers := []*Container{}
 	containers = append(containers, from.Pipeline.Containers...)
 	containers = append(containers, from.Services.Containers...)
+	containers = append(containers, from.Clone.Containers...)
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
-- 
2.43.0


From d5b0d9c64fb676c14b012e96eb5e24def1628363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 38/57] fix: ignore empty list entries when converting legacy
 files

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index d6e79fe..6c51ccc 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -349,6 +349,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -419,6 +422,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -440,6 +446,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From ae2223d75698687df413d411cdd67f4a111ec4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 39/57] fix: convert gitlab jobs in a deterministic order,
 ignoring empty jobs

---
 yaml/converter/gitlab/convert.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..73cb5a4 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,7 @@ package gitlab
 
 import (
 	"bytes"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -25,12 +26,22 @@ func Convert(b []byte) ([]byte, error) {
 	}
 	manifest := &droneyaml.Manifest{}
 
+	// sort the job names to ensure the result does not
+	// depend on the map iteration order.
+	var names []string
+	for name, job := range config.Jobs {
+		if job != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range names {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +52,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range names {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
-- 
2.43.0


From 2b5f1ae58a3948f7968bcaa9655c49fcc6a1585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 40/57] fix: ignore empty gitlab services

---
 yaml/converter/gitlab/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 73cb5a4..7a4ea7a 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -88,6 +88,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
-- 
2.43.0


From 0276ce5f27c37082937630e459cf547f2ddc6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 41/57] fix: read allow_failure of gitlab jobs

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From 0218456add7dc9c839b8f4b2f13b54d4edd9c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 42/57] fix: convert bitbucket files deterministically

---
 yaml/converter/bitbucket/config.go  | 19 +++++++++++++++----
 yaml/converter/bitbucket/convert.go | 11 +++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..a0b1e99 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -75,16 +76,16 @@ type (
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
 	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
+	for _, pattern := range sortedKeys(c.Pipelines.Tags) {
 		if ok, _ := path.Match(pattern, tag); ok {
-			return pipeline
+			return c.Pipelines.Tags[pattern]
 		}
 	}
 	// match pipeline by branch name
 	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
+	for _, pattern := range sortedKeys(c.Pipelines.Branches) {
 		if ok, _ := path.Match(pattern, branch); ok {
-			return pipeline
+			return c.Pipelines.Branches[pattern]
 		}
 	}
 	// use default
@@ -106,3 +107,13 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	}
 	return nil
 }
+
+// helper function returns the sorted stage patterns.
+func sortedKeys(stages map[string]Stage) []string {
+	var keys []string
+	for key := range stages {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..23c0c7c 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,8 +60,14 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
-	for name, from := range config.Definitions.Services {
-		to := toContainer(from)
+	var names []string
+	for name := range config.Definitions.Services {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		to := toContainer(config.Definitions.Services[name])
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
 	}
-- 
2.43.0


From 7edf433eaf0aa4504e1e2907f78eb2f6c1f4731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 43/57] fix: ignore empty bitbucket steps and services

---
 yaml/converter/bitbucket/config.go  | 3 +++
 yaml/converter/bitbucket/convert.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a0b1e99..cf0b035 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -103,6 +103,9 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 	for _, step := range in {
+		if step.Step == nil {
+			continue
+		}
 		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index 23c0c7c..abbb4b1 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -67,6 +67,9 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	sort.Strings(names)
 
 	for _, name := range names {
+		if config.Definitions.Services[name] == nil {
+			continue
+		}
 		to := toContainer(config.Definitions.Services[name])
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
-- 
2.43.0


From f59a4de6e5b7925aff6c348314ccf694b518254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 44/57] fix: parse image digests whichever packages are linked

---
 yaml/compiler/image/image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/image/image.go b/yaml/compiler/image/image.go
index 52dc3e4..23b875d 100644
--- a/yaml/compiler/image/image.go
+++ b/yaml/compiler/image/image.go
@@ -14,7 +14,13 @@
 
 package image
 
-import "github.com/docker/distribution/reference"
+import (
+	// digests are parsed only if their algorithm is linked.
+	_ "crypto/sha256"
+	_ "crypto/sha512"
+
+	"github.com/docker/distribution/reference"
+)
 
 // Trim returns the short image name without tag.
 func Trim(name string) string {
-- 
2.43.0


From 6578c573ddc98aed4239ecf446f7391c946f8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 45/57] fix: format empty lists of settings

---
 yaml/pretty/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 5565bfe..27ed4d2 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -116,7 +116,7 @@ func (w *baseWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || (isSlice(v) && isZero(v)) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
@@ -171,7 +171,7 @@ func (w *indexWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || (isSlice(v) && isZero(v)) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
-- 
2.43.0


From c56be1e2d6e7096e9d3b8ecb53552656a4726884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 46/57] fix: keep the order of legacy clone and service
 containers with merge keys

---
 yaml/converter/legacy/internal/yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 0b1d33f..82a4faf 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -12,7 +12,9 @@ import (
 
 type temporary struct {
 	Attributes map[string]interface{} `yaml:",inline"`
+	Clone      yaml.MapSlice          `yaml:"clone,omitempty"`
 	Pipeline   yaml.MapSlice          `yaml:"pipeline"`
+	Services   yaml.MapSlice          `yaml:"services,omitempty"`
 }
 
 // this is a helper function that expands merge keys
-- 
2.43.0


From 5298e7e291f47631d9d8c222736cfa126cbe04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 47/57] fix: keep legacy matrix values as written with merge
 keys

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 6c51ccc..3d27201 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -45,6 +45,7 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	// hack: this is a hack to support teams migrating
 	// from 0.8 to 1.0 that are using yaml merge keys.
 	// it can be removed in a future version.
+	raw := d
 	if hasMergeKeys(d) {
 		d, _ = expandMergeKeys(d)
 	}
@@ -188,7 +189,9 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err = matrix.Parse(d)
+		// the expanded file has normalized values, e.g. 1.1
+		// instead of 1.10.
+		axes, err = matrix.Parse(raw)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a3eb30bfdd9ae531e3feee4cb89924347a21b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 48/57] fix: expand legacy matrices with many axes without
 repetition

---
 yaml/converter/legacy/matrix/matrix.go | 39 +++++++++++++-------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 666bec2..848cce5 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -59,9 +59,7 @@ func ParseString(data string) ([]Axis, error) {
 }
 
 func calc(matrix Matrix) []Axis {
-	// calculate number of permutations and extract the list of tags
-	// (ie go_version, redis_version, etc)
-	var perm int
+	// extract the list of tags (ie go_version, redis_version, etc)
 	var tags []string
 	for k, v := range matrix {
 		// an axis with no values does not contribute to
@@ -69,10 +67,6 @@ func calc(matrix Matrix) []Axis {
 		if len(v) == 0 {
 			continue
 		}
-		perm *= len(v)
-		if perm == 0 {
-			perm = len(v)
-		}
 		tags = append(tags, k)
 	}
 
@@ -80,23 +74,28 @@ func calc(matrix Matrix) []Axis {
 	// the matrix, and not on the map iteration order.
 	sort.Strings(tags)
 
+	// enforce a maximum number of tags in the build matrix.
+	if len(tags) > limitTags+2 {
+		tags = tags[:limitTags+2]
+	}
+
 	// structure to hold the transformed result set
 	axisList := []Axis{}
 
-	// for each axis calculate the uniqe set of values that should be used.
-	for p := 0; p < perm; p++ {
+	// for each axis calculate the uniqe set of values that should
+	// be used. The last tag varies fastest.
+	for p := 0; len(tags) > 0; p++ {
 		axis := map[string]string{}
-		decr := perm
-		for i, tag := range tags {
-			elems := matrix[tag]
-			decr = decr / len(elems)
-			elem := p / decr % len(elems)
-			axis[tag] = elems[elem]
-
-			// enforce a maximum number of tags in the build matrix.
-			if i > limitTags {
-				break
-			}
+		rest := p
+		for i := len(tags) - 1; i >= 0; i-- {
+			elems := matrix[tags[i]]
+			axis[tags[i]] = elems[rest%len(elems)]
+			rest = rest / len(elems)
+		}
+
+		// all permutations are calculated.
+		if rest > 0 {
+			break
 		}
 
 		// append to the list of axis.
-- 
2.43.0


From 39e9243711a7f2b57466e077861c56983e2b5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 49/57] fix: keep the entrypoint and command of the global
 gitlab image

---
 yaml/converter/gitlab/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a4ea7a..4399bb3 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -77,6 +77,8 @@ func Convert(b []byte) ([]byte, error) {
 
 			if step.Image == "" {
 				step.Image = config.Image.Name
+				step.Command = config.Image.Command
+				step.Entrypoint = config.Image.Entrypoint
 			}
 			// TODO: handle Services
 			// TODO: handle Only
-- 
2.43.0


From cb0b78aadfa60d43d79cd4aec26121559ed85b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 50/57] fix: keep the variables of bitbucket steps and services

---
 yaml/converter/bitbucket/convert.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index abbb4b1..aae72fe 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -89,8 +89,21 @@ func Convert(b []byte, ref string) ([]byte, error) {
 
 func toContainer(from *Step) *droneyaml.Container {
 	return &droneyaml.Container{
-		Name:     from.Name,
-		Image:    from.Image,
-		Commands: from.Script,
+		Name:        from.Name,
+		Image:       from.Image,
+		Commands:    from.Script,
+		Environment: toEnvironment(from.Variables),
 	}
 }
+
+// helper function converts the variables to environment
+// variables.
+func toEnvironment(from map[string]string) map[string]*droneyaml.Variable {
+	envs := map[string]*droneyaml.Variable{}
+	for key, val := range from {
+		envs[key] = &droneyaml.Variable{
+			Value: val,
+		}
+	}
+	return envs
+}
-- 
2.43.0


From 2a2f0ed57579832846936c8eb5da23e3840d59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 51/57] fix: a terminator line does not open a document

---
 yaml/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 9691fde..cf8cff7 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -116,6 +116,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		}
 		line = strings.TrimSuffix(line, "\n")
 		line = strings.TrimRight(line, "\r")
+		if isTerminator(line) {
+			break
+		}
 		if isSeparator(line) {
 			resource = nil
 		}
@@ -126,9 +129,6 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		if isSeparator(line) {
 			continue
 		}
-		if isTerminator(line) {
-			break
-		}
 		resource.Data = append(
 			resource.Data,
 			line...,
-- 
2.43.0


From 6bf76833f52a8fdb8ab7bf3b316db696f0463b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 52/57] fix: legacy conversion panics on a mapping that merges
 itself

---
 yaml/converter/legacy/internal/yaml.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 82a4faf..4b7502e 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -6,6 +6,7 @@ package yaml
 
 import (
 	"bytes"
+	"fmt"
 
 	"github.com/vinzenz/yaml"
 )
@@ -18,7 +19,13 @@ type temporary struct {
 }
 
 // this is a helper function that expands merge keys
-func expandMergeKeys(b []byte) ([]byte, error) {
+func expandMergeKeys(b []byte) (out []byte, err error) {
+	// the parser panics when a mapping merges itself.
+	defer func() {
+		if r := recover(); r != nil {
+			out, err = b, fmt.Errorf("yaml: %v", r)
+		}
+	}()
 	v := new(temporary)
 	if err := yaml.Unmarshal(b, v); err != nil {
 		return b, err
-- 
2.43.0


From c3404eb087912bf79a9da6e739812d7001d17fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 53/57] fix: the lint command ignored duplicate pipelines and
 missing dependencies

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 3baad89..7ab4b71 100644
--- a/main.go
+++ b/main.go
@@ -133,7 +133,7 @@ func runLint() error {
 			return err
 		}
 	}
-	return nil
+	return linter.Manifest(m, *lintPriv)
 }
 
 func runSign() error {
-- 
2.43.0


From 86449825b8af65aaa393c9fe44810cc081d47f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 54/57] fix: reject legacy constraints that cannot be read

---
 yaml/converter/legacy/internal/constraint.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/constraint.go b/yaml/converter/legacy/internal/constraint.go
index 518db2a..82cfb73 100644
--- a/yaml/converter/legacy/internal/constraint.go
+++ b/yaml/converter/legacy/internal/constraint.go
@@ -39,8 +39,13 @@ func (c *Constraint) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	var out2 StringSlice
 
-	unmarshal(&out1)
-	unmarshal(&out2)
+	// a constraint that is neither a mapping nor a list must
+	// not be mistaken for an absent one, which always matches.
+	err1 := unmarshal(&out1)
+	err2 := unmarshal(&out2)
+	if err1 != nil && err2 != nil {
+		return err1
+	}
 
 	c.Exclude = out1.Exclude
 	c.Include = append(
-- 
2.43.0


From 3420acd217a913b80035ac47d9fb4bac217356d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 55/57] fix: gitlab templates and the cache are not jobs

---
 yaml/converter/gitlab/config.go  | 4 ++++
 yaml/converter/gitlab/convert.go | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index f97db3b..948bc4c 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -38,6 +38,10 @@ type (
 		// last job.
 		After internal.StringSlice `yaml:"after_script"`
 
+		// Cache is not used. It is defined so that it is not
+		// mistaken for a job.
+		Cache interface{}
+
 		// Jobs is used to define individual units
 		// of execution that make up a stage.
 		Jobs map[string]*Job `yaml:",inline"`
diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 4399bb3..6078c6f 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -30,7 +30,9 @@ func Convert(b []byte) ([]byte, error) {
 	// depend on the map iteration order.
 	var names []string
 	for name, job := range config.Jobs {
-		if job != nil {
+		// a name that starts with a dot is a template, which
+		// is never executed.
+		if job != nil && !strings.HasPrefix(name, ".") {
 			names = append(names, name)
 		}
 	}
-- 
2.43.0


From 59617d48cc026fe4a48d621f6ddd92f13e1dd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 56/57] fix: keep the parallel steps of bitbucket pipelines

---
 yaml/converter/bitbucket/config.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index cf0b035..a958305 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -96,17 +96,25 @@ func (c *Config) Pipeline(ref string) Stage {
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	in := []struct {
-		Step *Step
+		Step     *Step
+		Parallel []struct {
+			Step *Step
+		}
 	}{}
 	err := unmarshal(&in)
 	if err != nil {
 		return err
 	}
 	for _, step := range in {
-		if step.Step == nil {
-			continue
+		if step.Step != nil {
+			s.Steps = append(s.Steps, step.Step)
+		}
+		// parallel steps are executed one after the other.
+		for _, step := range step.Parallel {
+			if step.Step != nil {
+				s.Steps = append(s.Steps, step.Step)
+			}
 		}
-		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
 }
-- 
2.43.0


From 9f0e353330bb9e625f27e32667449621d6531fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 57/57] fix: gitlab jobs without a stage belong to the test
 stage

---
 yaml/converter/gitlab/convert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 6078c6f..38e67ca 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -47,6 +47,14 @@ func Convert(b []byte) ([]byte, error) {
 		}
 	}
 
+	// a job that does not define a stage belongs to the
+	// test stage.
+	for _, name := range names {
+		if config.Jobs[name].Stage == "" {
+			config.Jobs[name].Stage = "test"
+		}
+	}
+
 	// create a new pipeline for each stage.
 	var prevstage string
 	for _, stage := range config.Stages {
-- 
2.43.0

