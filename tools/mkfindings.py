"""Writes known_findings.jsonl: the unrepaired findings, and one line per repaired defect."""

import json, os, pathlib, subprocess

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("FF_REPO", "/repo")
# Unrepaired genuine defects (JSON rows with property, family, key, case, what).
FINDINGS: list[str] = [
    json.dumps({
        "property": "C31",
        "family": "modules",
        "key": f"result:forward: 'w = {call}(x, y)\\nreturn w * x'",
        "case": {"programs": [[f"w = {call}(x, y)\nreturn w * x", "forward", ["shared"]]]},
        "what": f"autoquantize: {call}, which assigns a `global` variable, is moved to the generated module, that does not have the variable (NameError)",
    })
    for call in ("counting", "a.counting")
]
FIXES = """
C01 29a9d2b 87daec2 b99bbfa
C02 c329223
C03 1613208 36703f1
C04 e62c97d
C05 6f255d3 5088c14 6c2f024 1613208
C06 350d078 e7c6ef0 a60aeba 36703f1
C07 25c054f
C08 bf4e2fe
C10 c3e5e41
C11 daeefd1
C12 7a86380
C14 3fce466
C13 9163ed3 0871b18 8f16da1 abd1b6f 4de4ae6 3fdd998 9862d77 d65ffde
C27 1802e9e d65ffde c3c90e2 de7ad24 f39216d d2ac6bd 3e68aed 27a99eb
C15 9a391f3 fa14f33 e06c5a4 a55e431 3b019c7
C16 fd86750 58e342f 09ad90e 3b67147
C17 b25e1b0 78c858b 3485add 44ac91f b5a4877 c2f2a53 ff705f8
C18 b569073 cf3092c 7644eb9
C19 905d13e c60532b 54e6017
C20 64688a5 64ede37 21f7755 0ed9d21
C21 b221e2d dd021ec
C22 46f20be 7d0734f 932a758 8ddf436 a218016 a9e91d9 5e81d8a
C23 7586dfc 35842fd 6a4cfb0 3f1d0f3 2375b2b
C24 096e123
C25 7d66610 1638bcc b94c82e 50a586d acf094d 984c196 a3f5e1f 55bce7c 298ec4a 0c7de5d c0c4982 6cf1b2c
C26 871e605 00f6875 157658a c0fc723 4948088 0261a23
C28 6bf1952 0006d4b e518ef8 90a3a56 c8985ad 2211a49 5dc0e7d 8a58b83
C29 955c967 5eb376d 932f578 72c4df6 5dc0e7d
C30 5b3f243
C31 d1441ad b468e6f 05575c7 45fa9b6 77e8c47 2befc6e d9255bf ce66531 5160ca4 c6d75b9 4c19a7f
C32 272c094
C33 e222a17
C34 02343fb
"""


def fixes():
    for line in sorted(FIXES.split("\n")):
        if line.strip():
            prop, *commits = line.split()
            for c in commits:
                yield prop, c


def main():
    subjects = dict(
        l.split(" ", 1)
        for l in subprocess.run(["git", "-C", REPO, "log", "--format=%h %s", "--abbrev=7", "--grep", "^fix:"], capture_output=True, text=True, check=True).stdout.splitlines()
    )
    lines = [*FINDINGS]
    seen = set()
    for prop, c in fixes():
        lines.append(f"fixed: property={prop} {c} the code did not {subjects[c].removeprefix('fix: ')}")
        seen.add(c)
    missing = set(subjects) - seen
    assert not missing, {c: subjects[c] for c in missing}
    (HERE / "known_findings.jsonl").write_text("".join(l + "\n" for l in lines))
    print(len(lines))


if __name__ == "__main__":
    main()
