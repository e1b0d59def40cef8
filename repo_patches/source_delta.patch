From 66c8686c1edaffe9a397f54f39f43d68befe54ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 01/38] fix: compare exactly the fetched revision instead of
 whatever origin/X or X happens to be

---
 core/src/lib.rs | 66 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..0372b31 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -262,35 +262,21 @@ pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 }
 
 pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
-	if pull {
+	let target = if pull {
 		git_pull(path, refname)?;
+		// Exactly what was just fetched, no matter which local branches or tags exist.
+		"FETCH_HEAD".to_string()
 	} else {
 		log::debug!("Not fetching branch {} (should_fetch={})", refname, pull);
-	}
-	// try to reset with remote...
-	log::info!("Resetting to origin/{}", refname);
-	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
-		.arg(format!("origin/{}", refname))
-		.current_dir(path)
-		.output();
-	// Ignore any errors and try again without `origin/` prefix.
-	match output {
-		Err(err) => log::info!("Failed to reset to origin/{}: {}", refname, err),
-		Ok(output) =>
-			if !output.status.success() {
-				log::warn!("Failed to reset to: origin/{}", String::from_utf8_lossy(&output.stderr))
-			} else {
-				return Ok(())
-			},
-	}
-	// Try resetting without remote.
-	log::info!("Fallback: Resetting to {}", refname);
+		git_last_fetched(path, refname)?
+	};
+
+	log::info!("Resetting to {} ({})", refname, target);
+	// Detached, since moving a local branch would make it lie about its commit later on.
 	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
-		.arg(refname)
+		.args(["checkout", "--force", "--detach"])
+		.arg(target)
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to reset branch: {:?}", e))?;
@@ -301,6 +287,36 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+/// Returns what is locally known about a branch, tag or commit. Prefers the state of the remote.
+fn git_last_fetched(path: &Path, refname: &str) -> Result<String, String> {
+	let candidates = [
+		format!("refs/remotes/origin/{}", refname),
+		format!("refs/tags/{}", refname),
+		refname.to_string(),
+	];
+	for candidate in candidates {
+		let output = Command::new("git")
+			.args(["rev-parse", "--verify", "--quiet"])
+			.arg(format!("{}^{{commit}}", candidate))
+			.current_dir(path)
+			.output()
+			.map_err(|e| format!("Failed to look up {}: {:?}", candidate, e))?;
+
+		match output.status.code() {
+			Some(0) => return Ok(candidate),
+			// Does not exist.
+			Some(1) => {},
+			_ =>
+				return Err(format!(
+					"Failed to look up {}: {}",
+					candidate,
+					String::from_utf8_lossy(&output.stderr)
+				)),
+		}
+	}
+	Err(format!("Unknown branch, tag or commit: {}", refname))
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
-- 
2.43.0


From 7647507a8a9113b540ebc393bb463fc274aa558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 02/38] fix: compare the pulled state of a branch instead of an
 outdated local branch

---
 core/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 0372b31..9c65340 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -220,15 +220,20 @@ pub fn git_checkout(
 	}
 
 	log::info!("Checking out {}", refname);
+	let mut args = vec!["checkout"];
 	if should_pull {
 		git_pull(path, refname)?;
+		// A local branch of that name could be outdated.
+		args.extend(["--detach", "FETCH_HEAD"]);
 	} else {
 		log::debug!("Not fetching branch {} (should_fetch={})", refname, should_pull);
+		args.push(refname);
 	}
+	// Never mistake a revision for a file name.
+	args.push("--");
 
 	let output = Command::new("git")
-		.arg("checkout")
-		.arg(refname)
+		.args(args)
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-- 
2.43.0


From 73407e1388126eec435fdbe55cb2a77c27785480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 03/38] fix: never pass a revision to git that it takes for an
 option or refspec

---
 core/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 9c65340..5e3de38 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -215,6 +215,9 @@ pub fn git_checkout(
 	should_pull: bool,
 	force: bool,
 ) -> Result<(), String> {
+	if refname.is_empty() || refname.starts_with('-') {
+		return Err(format!("Invalid branch, tag or commit: {:?}", refname))
+	}
 	if force {
 		return git_reset(path, refname, should_pull)
 	}
@@ -250,6 +253,10 @@ pub fn git_checkout(
 
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 	log::info!("Fetching branch {}", refname);
+	// Anything else than a name would be a refspec that can write local refs.
+	if refname.starts_with(['+', '^']) || refname.contains([':', '*']) {
+		return Err(format!("Cannot fetch branch, tag or commit: {:?}", refname))
+	}
 
 	let output = Command::new("git")
 		.arg("fetch")
-- 
2.43.0


From 6551f443c2144669005403e6c49d1895774129ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 04/38] fix: only compare files that belong to the checked out
 commit

---
 core/src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 5e3de38..9c33c69 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -329,12 +329,29 @@ fn git_last_fetched(path: &Path, refname: &str) -> Result<String, String> {
 	Err(format!("Unknown branch, tag or commit: {}", refname))
 }
 
+/// Returns the files that belong to the checked out commit relative to `path`.
+fn git_tracked_files(path: &Path) -> Result<HashSet<PathBuf>, String> {
+	let output = Command::new("git")
+		.args(["ls-files", "-z"])
+		.current_dir(path)
+		.output()
+		.map_err(|e| format!("Failed to list files: {:?}", e))?;
+
+	if !output.status.success() {
+		return Err(format!("Failed to list files: {}", String::from_utf8_lossy(&output.stderr)))
+	}
+	let files = String::from_utf8_lossy(&output.stdout);
+	Ok(files.split('\0').filter(|f| !f.is_empty()).map(PathBuf::from).collect())
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
 	max_files: usize,
 ) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 	let regex = regex.split(',');
+	// Anything else could be left over from an interrupted checkout or outside of the repo.
+	let tracked = git_tracked_files(base_path)?;
 
 	let mut paths = Vec::new();
 	for regex in regex {
@@ -344,7 +361,12 @@ fn list_files(
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files.iter().filter(|f| !f.ends_with("mod.rs")).cloned().collect();
+		let files: Vec<_> = files
+			.iter()
+			.filter(|f| !f.ends_with("mod.rs"))
+			.filter(|f| tracked.contains(f.strip_prefix(base_path).unwrap_or(f)))
+			.cloned()
+			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
 			return Err(
-- 
2.43.0


From 0fdf3aadb40e3306db22e6ba350dd0a3b5eb0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 05/38] fix: do not follow links in a repository to files
 outside of it

---
 core/src/parse/pallet.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..3be982b 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -59,11 +59,20 @@ impl<T> GenericExtrinsic<T> {
 }
 
 pub fn parse_file_in_repo(repo: &Path, file: &Path) -> Result<Vec<ChromaticExtrinsic>> {
+	if file.is_symlink() && !stays_in_repo(repo, file)? {
+		return Err(format!("{}: Links to outside of the repository", file.display()))
+	}
 	let content = super::read_file(file)?;
 	let name = PathStripping::RepoRelative.strip(repo, file);
 	parse_content(name, content).map_err(|e| format!("{}: {}", file.display(), e))
 }
 
+/// Whether a link of a repository, that anyone can commit, points to another file of it.
+fn stays_in_repo(repo: &Path, link: &Path) -> Result<bool> {
+	let real = |p: &Path| p.canonicalize().map_err(|e| format!("{}: {:?}", p.display(), e));
+	Ok(real(link)?.starts_with(real(repo)?))
+}
+
 pub fn parse_file(file: &Path) -> Result<Vec<ChromaticExtrinsic>> {
 	let content = super::read_file(file)?;
 	let name = PathStripping::FileName.strip(Path::new("."), file);
-- 
2.43.0


From 6f1da800d9592fbde3aa9617b80ba7192fb64b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 06/38] fix: report unsupported literals and statements of
 weight files instead of panicking

---
 core/src/parse/pallet.rs  | 15 +++++++++------
 core/src/parse/storage.rs |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 3be982b..50eeacd 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -281,7 +281,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err("Expected an expression as the statement of a weight function".into()),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
@@ -316,7 +316,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -436,7 +436,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -532,10 +532,13 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i
+			.base10_digits()
+			.parse()
+			.map_err(|e| format!("Invalid integer literal {}: {}", i, e)),
+		l => Err(format!("Expected integer literal but got: {}", l.to_token_stream())),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From 3658f85919571e49acde290b907c3e56d5794330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 07/38] fix: report overflowing weights instead of panicking or
 wrapping around

---
 core/src/term.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..96780a1 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,14 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => x
+				.eval(ctx)?
+				.checked_add(y.eval(ctx)?)
+				.ok_or_else(|| "Weight overflows".to_string()),
+			Self::Mul(x, y) => x
+				.eval(ctx)?
+				.checked_mul(y.eval(ctx)?)
+				.ok_or_else(|| "Weight overflows".to_string()),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
-- 
2.43.0


From 21fe30e47dc7e38640a7a848c261ba1c52038155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 08/38] fix: do not panic on absolute changes beyond the range
 of i128

---
 web/src/html.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..ee4d69d 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -118,7 +118,7 @@ pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
 pub(crate) fn html_color_abs(change: &TermChange, unit: Dimension) -> String {
 	match change.change {
 		RelativeChange::Changed => {
-			let diff = change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128;
+			let diff = abs_diff(change);
 			if diff < 0 {
 				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff.unsigned_abs()))
 			} else if diff > 0 {
@@ -151,9 +151,20 @@ fn order_percent(change: &TermChange) -> i128 {
 	}
 }
 
+/// The difference between the new and old value, saturated to the range of `i128`.
+fn abs_diff(change: &TermChange) -> i128 {
+	let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+	let diff = i128::try_from(new.abs_diff(old)).unwrap_or(i128::MAX);
+	if new < old {
+		-diff
+	} else {
+		diff
+	}
+}
+
 fn order_abs(change: &TermChange) -> i128 {
 	match change.change {
-		RelativeChange::Changed => change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128,
+		RelativeChange::Changed => abs_diff(change),
 		RelativeChange::Unchanged => 0,
 		RelativeChange::Added => i128::MAX,
 		RelativeChange::Removed => i128::MIN,
-- 
2.43.0


From 67967604305424556562b5ed0534b57b4744ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 09/38] fix: do not fetch branches of a repo while it is being
 used by a comparison

---
 web/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..8b0de25 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -215,7 +215,8 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		std::io::Error::new(std::io::ErrorKind::Other, format!("Failed to parse query: {}", e))
 	})?;
 
-	let repo = REPOS.get(&args.repo).ok_or_else(|| {
+	// Exclusive permit, since fetching changes the repo.
+	let repo = REPOS.get_mut(&args.repo).ok_or_else(|| {
 		std::io::Error::new(std::io::ErrorKind::Other, format!("Unknown repo '{}'", args.repo))
 	})?;
 	if args.fetch.unwrap_or_default() {
-- 
2.43.0


From 1dff07c415745360de9ffcb1b3c99203a25c61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 10/38] fix: report unexpected output of git as an error
 instead of panicking when listing branches

---
 web/src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 8b0de25..1e22fc1 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -237,7 +237,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 				)
 			})?;
 		if !output.status.success() {
-			let err = String::from_utf8(output.stderr).unwrap();
+			let err = String::from_utf8_lossy(&output.stderr);
 			log::error!("Failed to fetch branches: '{}'", &err);
 
 			return Err(std::io::Error::new(
@@ -254,7 +254,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-		let err = String::from_utf8(output.stderr).unwrap();
+		let err = String::from_utf8_lossy(&output.stderr);
 		log::error!("Failed to list branches: {}", &err);
 		return Err(std::io::Error::new(
 			std::io::ErrorKind::Other,
@@ -274,9 +274,16 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		// and the second as commit hash.
 		.map(|l| {
 			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+			match splits[..] {
+				[hash, name] if hash.len() >= 12 && hash.chars().all(|c| c.is_ascii_hexdigit()) =>
+					Ok((name.to_string(), hash[..12].to_string())),
+				_ => Err(std::io::Error::new(
+					std::io::ErrorKind::Other,
+					format!("Failed to parse branch: {:?}", l),
+				)),
+			}
 		})
-		.collect::<Vec<(String, String)>>();
+		.collect::<std::io::Result<Vec<(String, String)>>>()?;
 
 	#[derive(Serialize)]
 	struct Branches {
-- 
2.43.0


From 61cf77576a168712984eee729ce7423ffbf0fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 11/38] fix: fetch branches of repos whose tags were moved

---
 web/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/src/main.rs b/web/src/main.rs
index 1e22fc1..cdf117a 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -228,6 +228,8 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 			.arg("--all")
 			.arg("--prune")
 			.arg("--tags")
+			// Tags can move as well.
+			.arg("--force")
 			.current_dir(repo.path.deref())
 			.output()
 			.map_err(|e| {
-- 
2.43.0


From b17c4e1b9bcb4ea7062129e36415591df26cf0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 12/38] fix: list branches whose name contains refs/heads/ or
 refs/tags/ under their real name

---
 web/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index cdf117a..9bea158 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -265,20 +265,23 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.into())
 	}
 	let stdout = String::from_utf8_lossy(&output.stdout);
-	// Collect all branches and remove the leading refs/heads/
+	// Collect all branches and tags and remove the leading refs/heads/ or refs/tags/
 	let branch = stdout
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
 		// Split at whitespace and use the first part as the branch name
 		// and the second as commit hash.
 		.map(|l| {
 			let splits = l.split_whitespace().collect::<Vec<&str>>();
 			match splits[..] {
-				[hash, name] if hash.len() >= 12 && hash.chars().all(|c| c.is_ascii_hexdigit()) =>
-					Ok((name.to_string(), hash[..12].to_string())),
+				[hash, name] if hash.len() >= 12 && hash.chars().all(|c| c.is_ascii_hexdigit()) => {
+					let name = name
+						.strip_prefix("refs/heads/")
+						.or_else(|| name.strip_prefix("refs/tags/"))
+						.unwrap_or(name);
+					Ok((name.to_string(), hash[..12].to_string()))
+				},
 				_ => Err(std::io::Error::new(
 					std::io::ErrorKind::Other,
 					format!("Failed to parse branch: {:?}", l),
-- 
2.43.0


From 7079662a6b7846736def49b7eca63f26e618c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 13/38] fix: always report the same component when several have
 no usable range

---
 core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 9c33c69..b86aef8 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -627,7 +627,8 @@ pub(crate) fn extend_scoped_components(
 ) -> Result<Vec<SimpleScope>, String> {
 	let free_a = a.map(|e| e.term.free_vars(scope)).unwrap_or_default();
 	let free_b = b.map(|e| e.term.free_vars(scope)).unwrap_or_default();
-	let frees = free_a.union(&free_b).cloned().collect::<HashSet<_>>();
+	// Sorted, such that always the same component is reported in case of an error.
+	let frees = free_a.union(&free_b).cloned().collect::<BTreeSet<_>>();
 
 	let ra = a.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 	let rb = b.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
-- 
2.43.0


From faf7ce8f6ba5143c2ab04f95a9d5ba46c3e1fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 14/38] fix: make the order of failed comparisons consistent

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index b86aef8..c81e794 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -821,6 +821,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From 62e72aed88e92928f9f2ded3c90a79d8abcd3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 15/38] fix: do not time out requests that wait for a busy
 worker

---
 web/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 9bea158..6ae4a19 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -157,7 +157,10 @@ async fn main() -> std::io::Result<()> {
 			.service(compare_mrs)
 			.service(compare_commit)
 	})
-	.workers(4);
+	.workers(4)
+	// Requests can wait longer than the default of five seconds for a worker that is busy with a
+	// comparison, without the client being slow.
+	.client_request_timeout(std::time::Duration::from_secs(600));
 
 	let bound_server = if let Some(cert) = cmd.cert {
 		let mut builder = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
-- 
2.43.0


From 0ff29fccd2c58ab2413747e2bd27c1e5431604ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 16/38] fix: list the repositories in a fixed order

---
 web/src/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 6ae4a19..177936b 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -176,9 +176,16 @@ async fn main() -> std::io::Result<()> {
 	bound_server?.run().await
 }
 
+/// The names of all exposed repos in a fixed order.
+fn repo_names() -> Vec<String> {
+	let mut names = REPOS.iter().map(|r| r.key().clone()).collect::<Vec<_>>();
+	names.sort();
+	names
+}
+
 #[get("/")]
 async fn root() -> HttpResponse {
-	let repos = REPOS.iter().map(|r| r.key().clone()).collect();
+	let repos = repo_names();
 
 	http_200(templates::Root::render(repos))
 }
@@ -186,7 +193,7 @@ async fn root() -> HttpResponse {
 // TODO
 #[get("/compare-commit")]
 async fn compare_commit() -> HttpResponse {
-	let repos = REPOS.iter().map(|r| r.key().clone()).collect();
+	let repos = repo_names();
 
 	http_200(templates::Root::render(repos))
 }
@@ -194,7 +201,7 @@ async fn compare_commit() -> HttpResponse {
 /// Returns supported repositories.
 #[get("/repos")]
 async fn repositories() -> Result<impl Responder> {
-	let repos = REPOS.iter().map(|r| r.key().clone()).collect();
+	let repos = repo_names();
 
 	#[derive(Serialize)]
 	struct Info {
@@ -314,7 +321,7 @@ async fn compare(req: HttpRequest) -> HttpResponse {
 	args.old = html_escape::decode_html_entities(&args.old).to_string();
 	args.path_pattern = html_escape::decode_html_entities(&args.path_pattern).to_string();
 
-	let repos = REPOS.iter().map(|r| r.key().clone()).collect();
+	let repos = repo_names();
 	// TODO dont do two lookups here…
 	let organization = REPOS.get(&args.repo).map(|r| r.organization.clone());
 
@@ -345,7 +352,8 @@ struct MrArgs {}
 /// This endpoint is a two-in one. If no repo is passed,
 #[get("/compare-mr")]
 async fn compare_mrs(_req: HttpRequest) -> HttpResponse {
-	let repos = REPOS.iter().map(|r| r.value().clone()).collect();
+	let mut repos = REPOS.iter().map(|r| r.value().clone()).collect::<Vec<_>>();
+	repos.sort_by(|a, b| a.name.cmp(&b.name));
 	http_200(templates::MRs::render(repos))
 }
 
-- 
2.43.0


From c3bb1ea114ef82504b357b57ba8f1446c98be479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 17/38] fix: list calls that could not be compared in CSV
 output

---
 cli/src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..92fef08 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -267,6 +267,15 @@ fn print_changes_csv(
 	}
 	output.push('\n');
 
+	// Print all errors
+	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
+		output.push_str(&format!("{},{},-,-,ERROR", info.file, info.name));
+		if format.print_terms {
+			output.push_str(",-,-,-");
+		}
+		output.push('\n');
+	}
+
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-- 
2.43.0


From 2403a24b51bee5eba767d3edd32d56888a8abfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 18/38] fix: do not mistake a parent directory's git repository
 for an exposed repo

---
 web/src/git.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/src/git.rs b/web/src/git.rs
index 7e6e839..4ba97c3 100644
--- a/web/src/git.rs
+++ b/web/src/git.rs
@@ -7,6 +7,10 @@ use std::{path::Path, process::Command};
 ///
 /// Yes this is inflexible and depends on GitHub - whatever it works.
 pub fn get_origin_org(repo: &Path) -> Result<String, String> {
+	// Git would otherwise look for a repository in the parent directories.
+	if !repo.join(".git").exists() {
+		return Err(format!("Not a git repository: {}", repo.display()))
+	}
 	let output = Command::new("git")
 		.args(["remote", "get-url", "origin"])
 		.current_dir(repo)
-- 
2.43.0


From 54a88c2e8f6707cbe27908205b05f253f0359442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 19/38] fix: only offer the branches of the selected repo

---
 web/static/root.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/web/static/root.js b/web/static/root.js
index 01b4834..641322b 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -61,13 +61,18 @@ function populate_branches(branches) {
 function load_branches(repo, fetch) {
     // Is the repo unknown or should be fetched?
     if (!(repo in branches) || fetch) {
+        // Do not offer the branches of another repo in the meantime.
+        if (!(repo in branches))
+            populate_branches([]);
         loading(true);
         console.log("Loading branches for " + repo);
         $.getJSON("/branches?repo=" + repo + "&fetch=" + (fetch ? "true" : "false"), function (d) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
-            populate_branches(branches[repo]);
+            // Another repo could have been selected in the meantime.
+            if ($('#repoSelect').val() === repo)
+                populate_branches(branches[repo]);
             loading(false);
         });
     } else {
-- 
2.43.0


From ee9763a825b528635c8647d318116f09651b25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 20/38] fix: remove the loading overlay of the set-up page when
 a request fails

---
 web/static/root.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/static/root.js b/web/static/root.js
index 641322b..6d8beb9 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -73,6 +73,9 @@ function load_branches(repo, fetch) {
             // Another repo could have been selected in the meantime.
             if ($('#repoSelect').val() === repo)
                 populate_branches(branches[repo]);
+        }).fail(function () {
+            console.error("Could not load branches for " + repo);
+        }).always(function () {
             loading(false);
         });
     } else {
-- 
2.43.0


From 69856e9745ddbad0685c026067e635de948a44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 21/38] fix: encode the branch names when starting a comparison

---
 web/static/root.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 6d8beb9..81cc938 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -156,12 +156,12 @@ $(document).ready(function () {
         const repo = $('#repoSelect').val();
 
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
-        url += "&repo=" + repo;
-        url += "&old=" + $('#firstSelect').val();
-        url += "&new=" + $('#secondSelect').val();
+        url += "&repo=" + encodeURIComponent(repo);
+        url += "&old=" + encodeURIComponent($('#firstSelect').val());
+        url += "&new=" + encodeURIComponent($('#secondSelect').val());
 
         if (repo in path_pattern_presets) {
-            url += "&path_pattern=" + path_pattern_presets[repo];
+            url += "&path_pattern=" + encodeURIComponent(path_pattern_presets[repo]);
         } else {
             // Show an alert
             alert("No path pattern for '" + repo + "'");
-- 
2.43.0


From 24285dc5ffc9e850455b96cd34e6a8e24803dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 22/38] fix: do not show the revisions of another repo or
 compare without a revision

---
 web/static/root.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 81cc938..33f732e 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -155,6 +155,11 @@ $(document).ready(function () {
     $("#bthPost").click(function () {
         const repo = $('#repoSelect').val();
 
+        if (!$('#firstSelect').val() || !$('#secondSelect').val()) {
+            alert("Please select both commits");
+            return;
+        }
+
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
         url += "&repo=" + encodeURIComponent(repo);
         url += "&old=" + encodeURIComponent($('#firstSelect').val());
@@ -183,18 +188,18 @@ $(document).ready(function () {
         load_branches(repo, false);
     });
     $('#firstSelect').change(function () {
+        $('#selectedFirst').val($(this).val() || '');
         if (!$(this).val())
             return;
 
-        $('#selectedFirst').val($(this).val());
         localStorage.setItem(lsk_selected_first, $(this).val());
         console.debug("Storing first branch as " + $(this).val());
     });
     $('#secondSelect').change(function () {
+        $('#selectedSecond').val($(this).val() || '');
         if (!$(this).val())
             return;
-        
-        $('#selectedSecond').val($(this).val());
+
         localStorage.setItem(lsk_selected_second, $(this).val());
         console.debug("Storing second branch as " + $(this).val());
     });
-- 
2.43.0


From 422ae05811d5af73e96452e7e3ee3f56e9887308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 23/38] fix: remove the loading overlay of the merge requests
 page when a request fails

---
 web/static/merge_requests.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 46f21f1..2850af7 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -95,10 +95,9 @@ $(document).ready(function () {
 					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
-					}).done(function () {
-						populate_branches(branches[repo]);
+					}).always(function () {
 						loading(false);
-					});					
+					});
 				});
 				/*$(row).click(function() {
 					window.location.href = mr.html_url;
@@ -124,6 +123,7 @@ $(document).ready(function () {
 
 		// Set the 'highlighted' variable.
 		$('#highlighted').text(highlighted);
+	}).always(function () {
 		loading(false);
-	}).await;
+	});
 });
-- 
2.43.0


From 968374e8cddb6e5bad387a58748c59f7efee50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 24/38] fix: list merge requests of deleted forks

---
 web/static/merge_requests.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 2850af7..03b4774 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -106,10 +106,12 @@ $(document).ready(function () {
 			let disable = (function (mr) {
 				// Disable the row.
 				$(row).css('color', 'gray');
-				$(row).attr('title', 'Forks are unsupported. Remote: ' + mr['head']['repo']['owner']['login'] + ' != ' + owner);
+				$(row).attr('title', 'Forks are unsupported. Remote: ' + head_owner + ' != ' + owner);
 			});
 
-			if (mr['head']['repo']['owner']['login'] != owner) {
+			// The fork of a merge request can be deleted.
+			var head_owner = mr['head']['repo'] ? mr['head']['repo']['owner']['login'] : 'unknown';
+			if (head_owner != owner) {
 				$(row).css('color', 'gray');
 				disable(mr);
 			} else {
-- 
2.43.0


From c14e2641903c70de75f57579ce76e17e8d7cbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 25/38] fix: do not wait forever for merge requests of repos
 without a path pattern

---
 web/static/merge_requests.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 03b4774..2e78843 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -88,8 +88,8 @@ $(document).ready(function () {
 			// Create a double-click handler for the row:
 			let click_compare = (function (mr) {
 				$(row).dblclick(function() {
-					loading(true);
 					let params = new URLSearchParams(default_params(repo));
+					loading(true);
 					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
 					console.log("Opening: " + url);
 					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
-- 
2.43.0


From 819d6c518a17fa05a006a3e2bf8cb0779d60b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 26/38] fix: accept the list of files to parse as positional
 arguments

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 92fef08..9ed5c70 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -97,7 +97,7 @@ struct CompareCommitsCmd {
 #[derive(Debug, Parser)]
 struct ParseFilesCmd {
 	/// The files to parse.
-	#[clap(long, index = 1, required(true), num_args = 0..1000)]
+	#[clap(index = 1, required(true), num_args = 0..1000)]
 	pub files: Vec<PathBuf>,
 }
 
-- 
2.43.0


From 9b7dcf7738fc15ef1bda157a93ccff20073b46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 27/38] fix: separate the change from the weight term in CSV
 output

---
 cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 9ed5c70..a7d6f54 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -287,6 +287,7 @@ fn print_changes_csv(
 		);
 
 		if format.print_terms {
+			row.push(',');
 			write!(
 				row,
 				"{},",
-- 
2.43.0


From 651e45c9bd11fefb88ccf3384b0dae4836a6838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 28/38] fix: offer repositories under the name they are exposed
 with

---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From b41d02ec1971438eba5b1138c658f5b338c65faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 29/38] fix: remove the loading overlay of the set-up page when
 coming back to it

---
 web/static/root.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/web/static/root.js b/web/static/root.js
index 33f732e..2668728 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -211,6 +211,12 @@ $(document).ready(function () {
         load_branches(repo, true);
     });
 
+    // Coming back from a comparison can restore the page as it was left.
+    $(window).on("pageshow", function (event) {
+        if (event.originalEvent.persisted)
+            loading(false);
+    });
+
     // Load the repo that was last selected
     var selected_repo = localStorage.getItem(lsk_selected_repo);
     if (selected_repo && selected_repo in branches) {
-- 
2.43.0


From 35c11d2407da955e8564cffc3cb60f86da07f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 30/38] fix: encode the branch names of merge requests

---
 web/static/merge_requests.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 2e78843..a488607 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -90,7 +90,7 @@ $(document).ready(function () {
 				$(row).dblclick(function() {
 					let params = new URLSearchParams(default_params(repo));
 					loading(true);
-					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
+					let url = "/compare?" + params.toString() + `&old=${encodeURIComponent(mr.base.ref)}&new=${encodeURIComponent(mr.head.ref)}`;
 					console.log("Opening: " + url);
 					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
 						loading(false);
-- 
2.43.0


From 70583d79b751d6aa494a8af6ef545396d1b6b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 31/38] fix: list merge requests of deleted accounts

---
 web/static/merge_requests.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index a488607..a114dda 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -76,7 +76,8 @@ $(document).ready(function () {
 		for (var i = 0; i < data.length; i++) {
 			var mr = data[i];
 			var last_push = new Date(mr.updated_at);
-			var creator = mr.user.login;
+			// The account of a creator can be deleted.
+			var creator = mr.user ? mr.user.login : 'unknown';
 			var row = table.row.add([
 				mr.title.substr(0, 100),
 				creator,
-- 
2.43.0


From 14571ec6a0c6f2955f8faefc3c85962bd6759093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 32/38] fix: do not stop at malformed URL parameters of the
 merge requests page

---
 web/static/merge_requests.js | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index a114dda..19a8b45 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -14,17 +14,8 @@ function should_highlight(mr) {
 // Expose URL params as vars.
 //
 // Example: $.param('var_name');
-// From: https://stackoverflow.com/a/25359264/10167711
 $.param = function(name, def){
-    var results = new RegExp('[\?&]' + name + '=([^&#]*)').exec(window.location.href);
-    if (results === null) {
-       return def;
-    }
-    const res = decodeURI(results[1]);
-	if (res === null || res === '' || res === undefined) {
-		return def;
-	}
-	return res;
+	return new URLSearchParams(window.location.search).get(name) || def;
 }
 
 function init_ui() {
-- 
2.43.0


From a74abd2076901b858b170ec9135668f11ea39553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 33/38] fix: name files relative to repositories given as
 ./path

---
 core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index c81e794..d453e87 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,6 +181,11 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// The paths of the files are listed without a leading './'.
+	let repo = match repo.strip_prefix(".") {
+		Ok(stripped) if stripped != Path::new("") => stripped,
+		_ => repo,
+	};
 	// Parse the old files.
 	if let Err(err) = git_checkout(repo, old, params.should_pull(), params.git_force) {
 		return Err(format!("{:?}", err).into())
-- 
2.43.0


From e6197f19fc13c9d6170bf876edca9db911358c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 34/38] fix: report filters that cannot be evaluated instead of
 hiding calls

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d453e87..90db874 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -762,11 +762,11 @@ pub fn compare_files(
 	log::trace!("Comparing {} terms", olds.len());
 
 	for (pallet, extrinsic) in names {
-		if !pallet_regex.as_ref().map_or(true, |r| r.is_match(&pallet).unwrap_or_default()) {
+		if !pallet_regex.as_ref().map_or(Ok(true), |r| r.is_match(&pallet))? {
 			// TODO add "skipped" or "ignored" result type.
 			continue
 		}
-		if !ext_regex.as_ref().map_or(true, |r| r.is_match(&extrinsic).unwrap_or_default()) {
+		if !ext_regex.as_ref().map_or(Ok(true), |r| r.is_match(&extrinsic))? {
 			continue
 		}
 
-- 
2.43.0


From 39ac1d9c9dcd092a72a06e14980d928c7c4bb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 35/38] fix: list files of repositories below directories with
 wildcard characters

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 90db874..7a9f64c 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -360,7 +360,9 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		// Only the pattern has wildcards, not the path of the repo.
+		let base = glob::Pattern::escape(&base_path.display().to_string());
+		let regex = format!("{}/{}", base, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From ab6ea288fc42cc984db7c624fe03a9cf53193adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 36/38] fix: use the ranges of components whose names have
 underscores

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 7a9f64c..62bbd31 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -682,7 +682,9 @@ fn instance_component(
 ) -> Result<u32, String> {
 	use MinOrMax::*;
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	// The names of the ranges have no underscores.
+	let key = &component.replace('_', "");
+	match (ra.as_ref().and_then(|r| r.get(key)), rb.as_ref().and_then(|r| r.get(key))) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From 231149cfb7a75eb10f1b73ea66dbea1e6e04fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 37/38] fix: do not hide files that cannot be accessed

The glob crate leaves out paths whose metadata it cannot get, like a dangling
link or after an I/O error. They were missing in comparisons, even without
--ignore-errors. List all tracked files that match the pattern instead, so that
reading them fails, and do not take an error for 'not a link'.
---
 core/src/lib.rs          | 34 +++++++++++++++++++++++++++-------
 core/src/parse/pallet.rs |  4 +++-
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 62bbd31..c7ac564 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -349,6 +349,20 @@ fn git_tracked_files(path: &Path) -> Result<HashSet<PathBuf>, String> {
 	Ok(files.split('\0').filter(|f| !f.is_empty()).map(PathBuf::from).collect())
 }
 
+/// The tracked files that the path pattern selects, whether they can be accessed or not.
+fn tracked_matching<'a>(
+	tracked: &'a HashSet<PathBuf>,
+	pattern: &str,
+) -> Result<impl Iterator<Item = &'a PathBuf>, String> {
+	// These only select directories.
+	let dirs = pattern.ends_with("**") || pattern.ends_with('/');
+	let pattern =
+		glob::Pattern::new(pattern).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
+	let options =
+		glob::MatchOptions { require_literal_separator: true, ..glob::MatchOptions::new() };
+	Ok(tracked.iter().filter(move |f| !dirs && pattern.matches_path_with(f, options)))
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
@@ -357,22 +371,28 @@ fn list_files(
 	let regex = regex.split(',');
 	// Anything else could be left over from an interrupted checkout or outside of the repo.
 	let tracked = git_tracked_files(base_path)?;
+	// `glob` lists the files of the current directory without a leading './'.
+	let full_path = |file: &PathBuf| match base_path == Path::new(".") {
+		true => file.clone(),
+		false => base_path.join(file),
+	};
 
 	let mut paths = Vec::new();
 	for regex in regex {
 		// Only the pattern has wildcards, not the path of the repo.
 		let base = glob::Pattern::escape(&base_path.display().to_string());
-		let regex = format!("{}/{}", base, regex);
-		log::info!("Listing files matching: {:?}", &regex);
-		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
+		let full = format!("{}/{}", base, regex);
+		log::info!("Listing files matching: {:?}", &full);
+		let files = glob::glob(&full).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files
-			.iter()
-			.filter(|f| !f.ends_with("mod.rs"))
+		let files: BTreeSet<_> = files
+			.into_iter()
 			.filter(|f| tracked.contains(f.strip_prefix(base_path).unwrap_or(f)))
-			.cloned()
+			// `glob` leaves out what it cannot access, but that must not go unnoticed.
+			.chain(tracked_matching(&tracked, regex)?.map(full_path))
+			.filter(|f| !f.ends_with("mod.rs"))
 			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 50eeacd..157c3f3 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -59,7 +59,9 @@ impl<T> GenericExtrinsic<T> {
 }
 
 pub fn parse_file_in_repo(repo: &Path, file: &Path) -> Result<Vec<ChromaticExtrinsic>> {
-	if file.is_symlink() && !stays_in_repo(repo, file)? {
+	// Not `is_symlink`, which ignores errors.
+	let metadata = file.symlink_metadata().map_err(|e| format!("{}: {:?}", file.display(), e))?;
+	if metadata.file_type().is_symlink() && !stays_in_repo(repo, file)? {
 		return Err(format!("{}: Links to outside of the repository", file.display()))
 	}
 	let content = super::read_file(file)?;
-- 
2.43.0


From 49d5bfa57ba6f3c2b5b07758afa4894651451e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 38/38] fix: do not start with a key that belongs to another
 certificate

OpenSSL drops the key without an error when the certificate is set after it, so
that the server started but failed all handshakes.
---
 web/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/src/main.rs b/web/src/main.rs
index 177936b..3bf1f3c 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -168,6 +168,8 @@ async fn main() -> std::io::Result<()> {
 			.set_private_key_file(cmd.key.expect("Checked by clap"), SslFiletype::PEM)
 			.unwrap();
 		builder.set_certificate_chain_file(cert).unwrap();
+		// OpenSSL drops a key of another certificate without an error; all handshakes would fail.
+		builder.check_private_key()?;
 		server.bind_openssl(endpoint, builder)
 	} else {
 		server.bind(endpoint)
-- 
2.43.0

