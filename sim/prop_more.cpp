// Further properties: registration and operations shared by several of them
#include "prop_more.h"
#include <algorithm>
#include <cerrno>

namespace sim {

const std::vector<Prop> &moreProps()
{
    static const std::vector<Prop> v = {{"C07", genC07}, {"C08", genC08}, {"C10", genC10}, {"C11", genC11}, {"C12", genC12}, {"C13", genC13}, {"C14", genC14}, {"C15", genC15}, {"C16", genC16}, {"C17", genC17}, {"C19", genC19}, {"C20", genC20}, {"C21", genC21}, {"C22", genC22}, {"C23", genC23}, {"C24", genC24}, {"C25", genC25}, {"C26", genC26}, {"C27", genC27}, {"C28", genC28}, {"C29", genC29}, {"C30", genC30}};
    return v;
}

bool moreOp(Run &run, int i, const Op &op)
{
    if (expireOp(run, i, op) || restoreOp(run, i, op) || walOp(run, i, op) || pageOp(run, i, op) || secOp(run, i, op) || stanzaOp(run, i, op) || labelOp(run, i, op) || selectOp(run, i, op) || containOp(run, i, op) || placeOp(run, i, op) || dbselOp(run, i, op) || standbyOp(run, i, op) || readOp(run, i, op) || pickOp(run, i, op)) return true;
    if (op.name == "upgrade") {                                     // pg_upgrade (or a new cluster of the same version) in place, then stanza-upgrade
        run.drainWal(); run.waitArchiver(); run.pg->stopActivity();
        Pg *old = run.pg; old->running = false; old->archiverOn = false;
        Host *h = run.hp; fsRemoveTree(h, old->data); for (auto &l : old->links) fsRemoveTree(h, old->linkReal(l)); for (auto &t : old->tblspc) { fsRemoveTree(h, t.second); fsMkdirs(h, t.second, 1000, 1000, 0700); }
        Pg *g = new Pg; run.pg = g; run.models.push_back(g); g->h = h; g->major = op.n("same") ? old->major : old->major >= 18 ? 18 : old->major + 1;
        g->checksum = old->checksum; g->maxPages = old->maxPages; g->sysid = old->sysid + 7919 * run.models.size(); g->tblspc = old->tblspc; g->dbs = old->dbs; g->template0New = old->template0New; g->fm = old->fm; g->dm = old->dm;
        g->segSize = old->segSize; g->lsn0 = old->lsn & ~(uint64_t)(old->segSize - 1);     // pg_upgrade keeps the WAL position
        g->init(run.plan.seed + 31 * run.models.size(), (int)run.n("rels", 6), (int)run.n("extra", 3));
        g->links = old->links; g->makeLinks();
        g->archiveCmd = old->archiveCmd; g->archiveEnv = old->archiveEnv; g->allowDdl = old->allowDdl; g->tornPages = old->tornPages; g->queryDelayMax = old->queryDelayMax; g->archRetry = old->archRetry;
        g->onPush = [g](const std::string &f, int rc) { if (rc == 0) g->acked.insert(f); };
        fsSyncTree(h, g->data); for (auto &l : g->links) { std::string r2 = g->linkReal(l); fsSyncTree(h, r2.substr(0, r2.rfind('/'))); }
        if (!op.n("nostanza")) {
            CmdRes r = run.cmd(run.repoHost(1), {"--stanza=demo", "stanza-upgrade"}, "/", i);
            if (!r.ok() && !run.faultsFired()) run.fail("stanza-upgrade", fmt("stanza-upgrade failed rc=%d: ", r.rc) + r.why());
        }
        g->archiverOn = true; g->archiverKick();
        return true;
    }
    return false;
}
}
