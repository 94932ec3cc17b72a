import subprocess
M = {
'pkcs7.Unpad accepted':'C28','Decrypt crashed on malformed':'C02','Rollback kept':'C06','negative number of versions':'C08','Merge crashed on empty':'C10',
'RemoveLabel kept':'C18','SearchLabels counted':'C18','RenameDuplicates gave':'C16',"entry's last label":'C16','fuzzy.Match':'C17',"key material could be deleted":'C16',
'negative file length':'C21','lengths divisible by 256':'C19','absurdly large':'C19','passwd and rekey changed':'C14','rekeyall wrapped':'C14','x/user/me':'C14',
'blanks entered in':'C26','passphrase changed elsewhere':'C13','empty passphrase that':'C14','renaming users':'C14','same question forever':'C11','uncovered by resolving':'C11','syncing with an empty file':'C26','null database':'C31',
'without a usable url':'C31','malformed known host':'C20','sync entry deleted by the same sync':'C20','login ended':'C25','lastpass import':'C22','export missed':'C22',
'set and edit claimed':'C16','edit left':'C23','ignored the digits':'C25','destroyed the previous file':'C15','exited with status 0':'C15','with pinentry':'C27','in the history of the commands':'C29','when pinentry waited':'C27','broke the pinentry dialogue':'C27','from pinentry were misread':'C27',
'cannot be replayed':'C31',"creation and its naming":'C09','created in the same session':'C14','session hung':'C07','never renamed anything':'C16',
'begin and end alike':'C10','taken from one were forgotten':'C13','both added their first user':'C13','could not be generated stored':'C19','server hung up first':'C21','failure after its first response':'C21','absolute path given to addsync':'C21','server hung up before the client':'C21','codes of an empty secret':'C25','edit went on with a part':'C23','bytes that are not UTF-8':'C23','replaced the symlink':'C32','changed its owner and group':'C32','giving the default file':'C32','through a linked folder':'C32','hidden prompt could come back':'C33','listing completions of':'C34'}
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
L=["# Findings of the checks. 'fixed:' lines record repaired defects and suppress nothing.",
"# 'known: property=<id> sig=<text of the message> :: <what fails>' lists an unrepaired one.",
"known: property=C29 sig=[within the line editor library] :: github.com/aarondl/readline v0.0.1 races with itself: its reader and window-change goroutines use its configuration, history and completion state without locks while prompts change them"]
for l in out:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[v for a,v in M.items() if a in s]
    assert len(k)==1,(s,k)
    L.append(f"fixed: property={k[0]} {h} {s[5:]}")
open('/verif/known_findings.txt','w').write('\n'.join(L)+'\n')
print(len(L))
