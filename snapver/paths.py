import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SNAPVER_REPO", "/repo")
BUILD = os.environ.get("SNAPVER_BUILD", os.path.join(VERIF, "build"))


def rsdump():
    exe = os.path.join(BUILD, "rsdump", "release", "rsdump")
    if not os.path.exists(exe):
        import subprocess
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "rsdump")],
                       cwd=os.path.join(VERIF, "tools", "rsdump"), check=True, env=env)
    return exe
