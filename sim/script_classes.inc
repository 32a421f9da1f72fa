// The classes of the games' scripts and the fields of the host classes that belong to their members: M(class, member, field, function?, optional group).
C(IGuildValues, "C_GILVALUES")
M(IGuildValues, "WATER_DEPTH_KNEE", water_depth_knee, 0, 0)
M(IGuildValues, "WATER_DEPTH_CHEST", water_depth_chest, 0, 0)
M(IGuildValues, "JUMPUP_HEIGHT", jumpup_height, 0, 0)
M(IGuildValues, "SWIM_TIME", swim_time, 0, 0)
M(IGuildValues, "DIVE_TIME", dive_time, 0, 0)
M(IGuildValues, "STEP_HEIGHT", step_height, 0, 0)
M(IGuildValues, "JUMPLOW_HEIGHT", jumplow_height, 0, 0)
M(IGuildValues, "JUMPMID_HEIGHT", jumpmid_height, 0, 0)
M(IGuildValues, "SLIDE_ANGLE", slide_angle, 0, 0)
M(IGuildValues, "SLIDE_ANGLE2", slide_angle2, 0, 0)
M(IGuildValues, "DISABLE_AUTOROLL", disable_autoroll, 0, 0)
M(IGuildValues, "SURFACE_ALIGN", surface_align, 0, 0)
M(IGuildValues, "CLIMB_HEADING_ANGLE", climb_heading_angle, 0, 0)
M(IGuildValues, "CLIMB_HORIZ_ANGLE", climb_horiz_angle, 0, 0)
M(IGuildValues, "CLIMB_GROUND_ANGLE", climb_ground_angle, 0, 0)
M(IGuildValues, "FIGHT_RANGE_BASE", fight_range_base, 0, 0)
M(IGuildValues, "FIGHT_RANGE_FIST", fight_range_fist, 0, 0)
M(IGuildValues, "FIGHT_RANGE_1HS", fight_range_1hs, 0, 0)
M(IGuildValues, "FIGHT_RANGE_1HA", fight_range_1ha, 0, 0)
M(IGuildValues, "FIGHT_RANGE_2HS", fight_range_2hs, 0, 0)
M(IGuildValues, "FIGHT_RANGE_2HA", fight_range_2ha, 0, 0)
M(IGuildValues, "FALLDOWN_HEIGHT", falldown_height, 0, 0)
M(IGuildValues, "FALLDOWN_DAMAGE", falldown_damage, 0, 0)
M(IGuildValues, "BLOOD_DISABLED", blood_disabled, 0, 0)
M(IGuildValues, "BLOOD_MAX_DISTANCE", blood_max_distance, 0, 0)
M(IGuildValues, "BLOOD_AMOUNT", blood_amount, 0, 0)
M(IGuildValues, "BLOOD_FLOW", blood_flow, 0, 0)
M(IGuildValues, "BLOOD_EMITTER", blood_emitter, 0, 0)
M(IGuildValues, "BLOOD_TEXTURE", blood_texture, 0, 0)
M(IGuildValues, "TURN_SPEED", turn_speed, 0, 0)
M(IGuildValues, "FIGHT_RANGE_G", fight_range_g, 0, 1)
E(IGuildValues)
C(IFightAi, "C_FIGHTAI")
M(IFightAi, "MOVE", move, 0, 0)
E(IFightAi)
C(ISoundEffect, "C_SFX")
M(ISoundEffect, "FILE", file, 0, 0)
M(ISoundEffect, "PITCHOFF", pitch_off, 0, 0)
M(ISoundEffect, "PITCHVAR", pitch_var, 0, 0)
M(ISoundEffect, "VOL", vol, 0, 0)
M(ISoundEffect, "LOOP", loop, 0, 0)
M(ISoundEffect, "LOOPSTARTOFFSET", loop_start_offset, 0, 0)
M(ISoundEffect, "LOOPENDOFFSET", loop_end_offset, 0, 0)
M(ISoundEffect, "REVERBLEVEL", reverb_level, 0, 0)
M(ISoundEffect, "PFXNAME", pfx_name, 0, 0)
E(ISoundEffect)
C(ISoundSystem, "C_SNDSYS_CFG")
M(ISoundSystem, "VOLUME", volume, 0, 0)
M(ISoundSystem, "BITRESOLUTION", bit_resolution, 0, 0)
M(ISoundSystem, "SAMPLERATE", sample_rate, 0, 0)
M(ISoundSystem, "USESTEREO", use_stereo, 0, 0)
M(ISoundSystem, "NUMSFXCHANNELS", num_sfx_channels, 0, 0)
M(ISoundSystem, "USED3DPROVIDERNAME", used_3d_provider_name, 0, 0)
E(ISoundSystem)
C(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY")
M(IParticleEffectEmitKey, "VISNAME_S", vis_name_s, 0, 0)
M(IParticleEffectEmitKey, "VISSIZESCALE", vis_size_scale, 0, 0)
M(IParticleEffectEmitKey, "SCALEDURATION", scale_duration, 0, 0)
M(IParticleEffectEmitKey, "PFX_PPSVALUE", pfx_pps_value, 0, 0)
M(IParticleEffectEmitKey, "PFX_PPSISSMOOTHCHG", pfx_pps_is_smooth_chg, 0, 0)
M(IParticleEffectEmitKey, "PFX_PPSISLOOPINGCHG", pfx_pps_is_looping_chg, 0, 0)
M(IParticleEffectEmitKey, "PFX_SCTIME", pfx_sc_time, 0, 0)
M(IParticleEffectEmitKey, "PFX_FLYGRAVITY_S", pfx_fly_gravity_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPDIM_S", pfx_shp_dim_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPISVOLUMECHG", pfx_shp_is_volume_chg, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPSCALEFPS", pfx_shp_scale_fps, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPDISTRIBWALKSPEED", pfx_shp_distrib_walks_peed, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPOFFSETVEC_S", pfx_shp_offset_vec_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_SHPDISTRIBTYPE_S", pfx_shp_distrib_type_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_DIRMODE_S", pfx_dir_mode_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_DIRFOR_S", pfx_dir_for_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_DIRMODETARGETFOR_S", pfx_dir_mode_target_for_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_DIRMODETARGETPOS_S", pfx_dir_mode_target_pos_s, 0, 0)
M(IParticleEffectEmitKey, "PFX_VELAVG", pfx_vel_avg, 0, 0)
M(IParticleEffectEmitKey, "PFX_LSPPARTAVG", pfx_lsp_part_avg, 0, 0)
M(IParticleEffectEmitKey, "PFX_VISALPHASTART", pfx_vis_alpha_start, 0, 0)
M(IParticleEffectEmitKey, "LIGHTPRESETNAME", light_preset_name, 0, 0)
M(IParticleEffectEmitKey, "LIGHTRANGE", light_range, 0, 0)
M(IParticleEffectEmitKey, "SFXID", sfx_id, 0, 0)
M(IParticleEffectEmitKey, "SFXISAMBIENT", sfx_is_ambient, 0, 0)
M(IParticleEffectEmitKey, "EMCREATEFXID", em_create_fx_id, 0, 0)
M(IParticleEffectEmitKey, "EMFLYGRAVITY", em_fly_gravity, 0, 0)
M(IParticleEffectEmitKey, "EMSELFROTVEL_S", em_self_rot_vel_s, 0, 0)
M(IParticleEffectEmitKey, "EMTRJMODE_S", em_trj_mode_s, 0, 0)
M(IParticleEffectEmitKey, "EMTRJEASEVEL", em_trj_ease_vel, 0, 0)
M(IParticleEffectEmitKey, "EMCHECKCOLLISION", em_check_collision, 0, 0)
M(IParticleEffectEmitKey, "EMFXLIFESPAN", em_fx_lifespan, 0, 0)
E(IParticleEffectEmitKey)
C(INpc, "C_NPC")
M(INpc, "ID", id, 0, 0)
M(INpc, "NAME", name, 0, 0)
M(INpc, "SLOT", slot, 0, 0)
M(INpc, "NPCTYPE", type, 0, 0)
M(INpc, "FLAGS", flags, 0, 0)
M(INpc, "ATTRIBUTE", attribute, 0, 0)
M(INpc, "PROTECTION", protection, 0, 0)
M(INpc, "DAMAGE", damage, 0, 0)
M(INpc, "DAMAGETYPE", damage_type, 0, 0)
M(INpc, "GUILD", guild, 0, 0)
M(INpc, "LEVEL", level, 0, 0)
M(INpc, "MISSION", mission, 1, 0)
M(INpc, "FIGHT_TACTIC", fight_tactic, 0, 0)
M(INpc, "WEAPON", weapon, 0, 0)
M(INpc, "VOICE", voice, 0, 0)
M(INpc, "VOICEPITCH", voice_pitch, 0, 0)
M(INpc, "BODYMASS", body_mass, 0, 0)
M(INpc, "DAILY_ROUTINE", daily_routine, 1, 0)
M(INpc, "START_AISTATE", start_aistate, 1, 0)
M(INpc, "SPAWNPOINT", spawnpoint, 0, 0)
M(INpc, "SPAWNDELAY", spawn_delay, 0, 0)
M(INpc, "SENSES", senses, 0, 0)
M(INpc, "SENSES_RANGE", senses_range, 0, 0)
M(INpc, "AIVAR", aivar, 0, 0)
M(INpc, "WP", wp, 0, 0)
M(INpc, "EXP", exp, 0, 0)
M(INpc, "EXP_NEXT", exp_next, 0, 0)
M(INpc, "LP", lp, 0, 0)
M(INpc, "HITCHANCE", hitchance, 0, 1)
M(INpc, "BODYSTATEINTERRUPTABLEOVERRIDE", bodystate_interruptable_override, 0, 1)
M(INpc, "NOFOCUS", no_focus, 0, 1)
M(INpc, "EFFECT", effect, 0, 2)
E(INpc)
C(IMission, "C_MISSION")
M(IMission, "NAME", name, 0, 0)
M(IMission, "DESCRIPTION", description, 0, 0)
M(IMission, "DURATION", duration, 0, 0)
M(IMission, "IMPORTANT", important, 0, 0)
M(IMission, "OFFERCONDITIONS", offer_conditions, 1, 0)
M(IMission, "OFFER", offer, 1, 0)
M(IMission, "SUCCESSCONDITIONS", success_conditions, 1, 0)
M(IMission, "SUCCESS", success, 1, 0)
M(IMission, "FAILURECONDITIONS", failure_conditions, 1, 0)
M(IMission, "FAILURE", failure, 1, 0)
M(IMission, "OBSOLETECONDITIONS", obsolete_conditions, 1, 0)
M(IMission, "OBSOLETE", obsolete, 1, 0)
M(IMission, "RUNNING", running, 1, 0)
E(IMission)
C(IItem, "C_ITEM")
M(IItem, "ID", id, 0, 0)
M(IItem, "NAME", name, 0, 0)
M(IItem, "NAMEID", name_id, 0, 0)
M(IItem, "HP", hp, 0, 0)
M(IItem, "HP_MAX", hp_max, 0, 0)
M(IItem, "MAINFLAG", main_flag, 0, 0)
M(IItem, "FLAGS", flags, 0, 0)
M(IItem, "WEIGHT", weight, 0, 0)
M(IItem, "VALUE", value, 0, 0)
M(IItem, "DAMAGETYPE", damage_type, 0, 0)
M(IItem, "DAMAGETOTAL", damage_total, 0, 0)
M(IItem, "DAMAGE", damage, 0, 0)
M(IItem, "WEAR", wear, 0, 0)
M(IItem, "PROTECTION", protection, 0, 0)
M(IItem, "NUTRITION", nutrition, 0, 0)
M(IItem, "COND_ATR", cond_atr, 0, 0)
M(IItem, "COND_VALUE", cond_value, 0, 0)
M(IItem, "CHANGE_ATR", change_atr, 0, 0)
M(IItem, "CHANGE_VALUE", change_value, 0, 0)
M(IItem, "MAGIC", magic, 1, 0)
M(IItem, "ON_EQUIP", on_equip, 1, 0)
M(IItem, "ON_UNEQUIP", on_unequip, 1, 0)
M(IItem, "ON_STATE", on_state, 1, 0)
M(IItem, "OWNER", owner, 1, 0)
M(IItem, "OWNERGUILD", owner_guild, 0, 0)
M(IItem, "DISGUISEGUILD", disguise_guild, 0, 0)
M(IItem, "VISUAL", visual, 0, 0)
M(IItem, "VISUAL_CHANGE", visual_change, 0, 0)
M(IItem, "VISUAL_SKIN", visual_skin, 0, 0)
M(IItem, "SCEMENAME", scheme_name, 0, 0)
M(IItem, "MATERIAL", material, 0, 0)
M(IItem, "MUNITION", munition, 0, 0)
M(IItem, "SPELL", spell, 0, 0)
M(IItem, "RANGE", range, 0, 0)
M(IItem, "MAG_CIRCLE", mag_circle, 0, 0)
M(IItem, "DESCRIPTION", description, 0, 0)
M(IItem, "TEXT", text, 0, 0)
M(IItem, "COUNT", count, 0, 0)
M(IItem, "INV_ZBIAS", inv_zbias, 0, 1)
M(IItem, "INV_ROTX", inv_rot_x, 0, 1)
M(IItem, "INV_ROTY", inv_rot_y, 0, 1)
M(IItem, "INV_ROTZ", inv_rot_z, 0, 1)
M(IItem, "INV_ANIMATE", inv_animate, 0, 1)
M(IItem, "EFFECT", effect, 0, 2)
E(IItem)
C(IFocus, "C_FOCUS")
M(IFocus, "NPC_LONGRANGE", npc_longrange, 0, 0)
M(IFocus, "NPC_RANGE1", npc_range1, 0, 0)
M(IFocus, "NPC_RANGE2", npc_range2, 0, 0)
M(IFocus, "NPC_AZI", npc_azi, 0, 0)
M(IFocus, "NPC_ELEVDO", npc_elevdo, 0, 0)
M(IFocus, "NPC_ELEVUP", npc_elevup, 0, 0)
M(IFocus, "NPC_PRIO", npc_prio, 0, 0)
M(IFocus, "ITEM_RANGE1", item_range1, 0, 0)
M(IFocus, "ITEM_RANGE2", item_range2, 0, 0)
M(IFocus, "ITEM_AZI", item_azi, 0, 0)
M(IFocus, "ITEM_ELEVDO", item_elevdo, 0, 0)
M(IFocus, "ITEM_ELEVUP", item_elevup, 0, 0)
M(IFocus, "ITEM_PRIO", item_prio, 0, 0)
M(IFocus, "MOB_RANGE1", mob_range1, 0, 0)
M(IFocus, "MOB_RANGE2", mob_range2, 0, 0)
M(IFocus, "MOB_AZI", mob_azi, 0, 0)
M(IFocus, "MOB_ELEVDO", mob_elevdo, 0, 0)
M(IFocus, "MOB_ELEVUP", mob_elevup, 0, 0)
M(IFocus, "MOB_PRIO", mob_prio, 0, 0)
E(IFocus)
C(IInfo, "C_INFO")
M(IInfo, "NPC", npc, 0, 0)
M(IInfo, "NR", nr, 0, 0)
M(IInfo, "IMPORTANT", important, 0, 0)
M(IInfo, "CONDITION", condition, 1, 0)
M(IInfo, "INFORMATION", information, 1, 0)
M(IInfo, "DESCRIPTION", description, 0, 0)
M(IInfo, "TRADE", trade, 0, 0)
M(IInfo, "PERMANENT", permanent, 0, 0)
E(IInfo)
C(IItemReact, "C_ITEMREACT")
M(IItemReact, "NPC", npc, 0, 0)
M(IItemReact, "TRADE_ITEM", trade_item, 0, 0)
M(IItemReact, "TRADE_AMOUNT", trade_amount, 0, 0)
M(IItemReact, "REQUESTED_CAT", requested_cat, 0, 0)
M(IItemReact, "REQUESTED_ITEM", requested_item, 0, 0)
M(IItemReact, "REQUESTED_AMOUNT", requested_amount, 0, 0)
M(IItemReact, "REACTION", reaction, 1, 0)
E(IItemReact)
C(ISpell, "C_SPELL")
M(ISpell, "TIME_PER_MANA", time_per_mana, 0, 0)
M(ISpell, "DAMAGE_PER_LEVEL", damage_per_level, 0, 0)
M(ISpell, "DAMAGETYPE", damage_type, 0, 0)
M(ISpell, "SPELLTYPE", spell_type, 0, 0)
M(ISpell, "CANTURNDURINGINVEST", can_turn_during_invest, 0, 0)
M(ISpell, "CANCHANGETARGETDURINGINVEST", can_change_target_during_invest, 0, 0)
M(ISpell, "ISMULTIEFFECT", is_multi_effect, 0, 0)
M(ISpell, "TARGETCOLLECTALGO", target_collect_algo, 0, 0)
M(ISpell, "TARGETCOLLECTTYPE", target_collect_type, 0, 0)
M(ISpell, "TARGETCOLLECTRANGE", target_collect_range, 0, 0)
M(ISpell, "TARGETCOLLECTAZI", target_collect_azi, 0, 0)
M(ISpell, "TARGETCOLLECTELEV", target_collect_elev, 0, 0)
E(ISpell)
C(ISvm, "C_SVM")
M(ISvm, "MILGREETINGS", mil_greetings, 0, 1)
M(ISvm, "PALGREETINGS", pal_greetings, 0, 2)
M(ISvm, "WEATHER", weather, 0, 3)
M(ISvm, "IGETYOUSTILL", iget_you_still, 0, 4)
M(ISvm, "DIEENEMY", die_enemy, 0, 5)
M(ISvm, "DIEMONSTER", die_monster, 0, 6)
M(ISvm, "ADDON_DIEMONSTER", addon_die_monster, 0, 7)
M(ISvm, "ADDON_DIEMONSTER2", addon_die_monster_2, 0, 8)
M(ISvm, "DIRTYTHIEF", dirty_thief, 0, 9)
M(ISvm, "HANDSOFF", hands_off, 0, 10)
M(ISvm, "SHEEPKILLER", sheep_killer, 0, 11)
M(ISvm, "SHEEPKILLERMONSTER", sheep_killer_monster, 0, 12)
M(ISvm, "YOUMURDERER", you_murderer, 0, 13)
M(ISvm, "DIESTUPIDBEAST", die_stupid_beast, 0, 14)
M(ISvm, "YOUDAREHITME", you_dare_hit_me, 0, 15)
M(ISvm, "YOUASKEDFORIT", you_asked_for_it, 0, 16)
M(ISvm, "THENIBEATYOUOUTOFHERE", then_ibeat_you_out_of_here, 0, 17)
M(ISvm, "WHATDIDYOUDOINTHERE", what_did_you_do_in_there, 0, 18)
M(ISvm, "WILLYOUSTOPFIGHTING", will_you_stop_fighting, 0, 19)
M(ISvm, "KILLENEMY", kill_enemy, 0, 20)
M(ISvm, "ENEMYKILLED", enemy_killed, 0, 21)
M(ISvm, "MONSTERKILLED", monster_killed, 0, 22)
M(ISvm, "ADDON_MONSTERKILLED", addon_monster_killed, 0, 23)
M(ISvm, "ADDON_MONSTERKILLED2", addon_monster_killed_2, 0, 24)
M(ISvm, "THIEFDOWN", thief_down, 0, 25)
M(ISvm, "RUMFUMMLERDOWN", rumfummler_down, 0, 26)
M(ISvm, "SHEEPATTACKERDOWN", sheep_attacker_down, 0, 27)
M(ISvm, "KILLMURDERER", kill_murderer, 0, 28)
M(ISvm, "STUPIDBEASTKILLED", stupid_beast_killed, 0, 29)
M(ISvm, "NEVERHITMEAGAIN", never_hit_me_again, 0, 30)
M(ISvm, "YOUBETTERSHOULDHAVELISTENED", you_better_should_have_listened, 0, 31)
M(ISvm, "GETUPANDBEGONE", get_up_and_begone, 0, 32)
M(ISvm, "NEVERENTERROOMAGAIN", never_enter_room_again, 0, 33)
M(ISvm, "THEREISNOFIGHTINGHERE", there_is_no_fighting_here, 0, 34)
M(ISvm, "SPAREME", spare_me, 0, 35)
M(ISvm, "RUNAWAY", run_away, 0, 36)
M(ISvm, "ALARM", alarm, 0, 37)
M(ISvm, "GUARDS", guards, 0, 38)
M(ISvm, "HELP", help, 0, 39)
M(ISvm, "GOODMONSTERKILL", good_monster_kill, 0, 40)
M(ISvm, "GOODKILL", good_kill, 0, 41)
M(ISvm, "NOTNOW", not_now, 0, 42)
M(ISvm, "RUNCOWARD", run_coward, 0, 43)
M(ISvm, "GETOUTOFHERE", get_out_of_here, 0, 44)
M(ISvm, "WHYAREYOUINHERE", why_are_you_in_here, 0, 45)
M(ISvm, "YESGOOUTOFHERE", yes_go_out_of_here, 0, 46)
M(ISvm, "WHATSTHISSUPPOSEDTOBE", whats_this_supposed_to_be, 0, 47)
M(ISvm, "YOUDISTURBEDMYSLUMBER", you_disturbed_my_slumber, 0, 48)
M(ISvm, "ITOOKYOURGOLD", itook_your_gold, 0, 49)
M(ISvm, "SHITNOGOLD", shit_no_gold, 0, 50)
M(ISvm, "ITAKEYOURWEAPON", itake_your_weapon, 0, 51)
M(ISvm, "WHATAREYOUDOING", what_are_you_doing, 0, 52)
M(ISvm, "LOOKINGFORTROUBLEAGAIN", looking_for_trouble_again, 0, 53)
M(ISvm, "STOPMAGIC", stop_magic, 0, 54)
M(ISvm, "ISAIDSTOPMAGIC", isaid_stop_magic, 0, 55)
M(ISvm, "WEAPONDOWN", weapon_down, 0, 56)
M(ISvm, "ISAIDWEAPONDOWN", isaid_weapon_down, 0, 57)
M(ISvm, "WISEMOVE", wise_move, 0, 58)
M(ISvm, "NEXTTIMEYOUREINFORIT", next_time_youre_in_for_it, 0, 59)
M(ISvm, "OHMYHEAD", oh_my_head, 0, 60)
M(ISvm, "THERESAFIGHT", theres_afight, 0, 61)
M(ISvm, "OHMYGODITSAFIGHT", oh_my_god_its_afight, 0, 62)
M(ISvm, "GOODVICTORY", good_victory, 0, 63)
M(ISvm, "NOTBAD", not_bad, 0, 64)
M(ISvm, "OHMYGODHESDOWN", oh_my_god_hes_down, 0, 65)
M(ISvm, "CHEERFRIEND01", cheer_friend_01, 0, 66)
M(ISvm, "CHEERFRIEND02", cheer_friend_02, 0, 67)
M(ISvm, "CHEERFRIEND03", cheer_friend_03, 0, 68)
M(ISvm, "OOH01", ooh_01, 0, 69)
M(ISvm, "OOH02", ooh_02, 0, 70)
M(ISvm, "OOH03", ooh_03, 0, 71)
M(ISvm, "WHATWASTHAT", what_was_that, 0, 72)
M(ISvm, "GETOUTOFMYBED", get_out_of_my_bed, 0, 73)
M(ISvm, "AWAKE", awake, 0, 74)
M(ISvm, "ABS_COMMANDER", abs_commander, 0, 75)
M(ISvm, "ABS_MONASTERY", abs_monastery, 0, 76)
M(ISvm, "ABS_FARM", abs_farm, 0, 77)
M(ISvm, "ABS_GOOD", abs_good, 0, 78)
M(ISvm, "SHEEPKILLER_CRIME", sheep_killer_crime, 0, 79)
M(ISvm, "ATTACK_CRIME", attack_crime, 0, 80)
M(ISvm, "THEFT_CRIME", theft_crime, 0, 81)
M(ISvm, "MURDER_CRIME", murder_crime, 0, 82)
M(ISvm, "PAL_CITY_CRIME", pal_city_crime, 0, 83)
M(ISvm, "MIL_CITY_CRIME", mil_city_crime, 0, 84)
M(ISvm, "CITY_CRIME", city_crime, 0, 85)
M(ISvm, "MONA_CRIME", mona_crime, 0, 86)
M(ISvm, "FARM_CRIME", farm_crime, 0, 87)
M(ISvm, "OC_CRIME", oc_crime, 0, 88)
M(ISvm, "TOUGHGUY_ATTACKLOST", toughguy_attack_lost, 0, 89)
M(ISvm, "TOUGHGUY_ATTACKWON", toughguy_attack_won, 0, 90)
M(ISvm, "TOUGHGUY_PLAYERATTACK", toughguy_player_attack, 0, 91)
M(ISvm, "GOLD_1000", gold_1000, 0, 92)
M(ISvm, "GOLD_950", gold_950, 0, 93)
M(ISvm, "GOLD_900", gold_900, 0, 94)
M(ISvm, "GOLD_850", gold_850, 0, 95)
M(ISvm, "GOLD_800", gold_800, 0, 96)
M(ISvm, "GOLD_750", gold_750, 0, 97)
M(ISvm, "GOLD_700", gold_700, 0, 98)
M(ISvm, "GOLD_650", gold_650, 0, 99)
M(ISvm, "GOLD_600", gold_600, 0, 100)
M(ISvm, "GOLD_550", gold_550, 0, 101)
M(ISvm, "GOLD_500", gold_500, 0, 102)
M(ISvm, "GOLD_450", gold_450, 0, 103)
M(ISvm, "GOLD_400", gold_400, 0, 104)
M(ISvm, "GOLD_350", gold_350, 0, 105)
M(ISvm, "GOLD_300", gold_300, 0, 106)
M(ISvm, "GOLD_250", gold_250, 0, 107)
M(ISvm, "GOLD_200", gold_200, 0, 108)
M(ISvm, "GOLD_150", gold_150, 0, 109)
M(ISvm, "GOLD_100", gold_100, 0, 110)
M(ISvm, "GOLD_90", gold_90, 0, 111)
M(ISvm, "GOLD_80", gold_80, 0, 112)
M(ISvm, "GOLD_70", gold_70, 0, 113)
M(ISvm, "GOLD_60", gold_60, 0, 114)
M(ISvm, "GOLD_50", gold_50, 0, 115)
M(ISvm, "GOLD_40", gold_40, 0, 116)
M(ISvm, "GOLD_30", gold_30, 0, 117)
M(ISvm, "GOLD_20", gold_20, 0, 118)
M(ISvm, "GOLD_10", gold_10, 0, 119)
M(ISvm, "SMALLTALK01", smalltalk_01, 0, 120)
M(ISvm, "SMALLTALK02", smalltalk_02, 0, 121)
M(ISvm, "SMALLTALK03", smalltalk_03, 0, 122)
M(ISvm, "SMALLTALK04", smalltalk_04, 0, 123)
M(ISvm, "SMALLTALK05", smalltalk_05, 0, 124)
M(ISvm, "SMALLTALK06", smalltalk_06, 0, 125)
M(ISvm, "SMALLTALK07", smalltalk_07, 0, 126)
M(ISvm, "SMALLTALK08", smalltalk_08, 0, 127)
M(ISvm, "SMALLTALK09", smalltalk_09, 0, 128)
M(ISvm, "SMALLTALK10", smalltalk_10, 0, 129)
M(ISvm, "SMALLTALK11", smalltalk_11, 0, 130)
M(ISvm, "SMALLTALK12", smalltalk_12, 0, 131)
M(ISvm, "SMALLTALK13", smalltalk_13, 0, 132)
M(ISvm, "SMALLTALK14", smalltalk_14, 0, 133)
M(ISvm, "SMALLTALK15", smalltalk_15, 0, 134)
M(ISvm, "SMALLTALK16", smalltalk_16, 0, 135)
M(ISvm, "SMALLTALK17", smalltalk_17, 0, 136)
M(ISvm, "SMALLTALK18", smalltalk_18, 0, 137)
M(ISvm, "SMALLTALK19", smalltalk_19, 0, 138)
M(ISvm, "SMALLTALK20", smalltalk_20, 0, 139)
M(ISvm, "SMALLTALK21", smalltalk_21, 0, 140)
M(ISvm, "SMALLTALK22", smalltalk_22, 0, 141)
M(ISvm, "SMALLTALK23", smalltalk_23, 0, 142)
M(ISvm, "SMALLTALK24", smalltalk_24, 0, 143)
M(ISvm, "SMALLTALK25", smalltalk_25, 0, 144)
M(ISvm, "SMALLTALK26", smalltalk_26, 0, 145)
M(ISvm, "SMALLTALK27", smalltalk_27, 0, 146)
M(ISvm, "SMALLTALK28", smalltalk_28, 0, 147)
M(ISvm, "SMALLTALK29", smalltalk_29, 0, 148)
M(ISvm, "SMALLTALK30", smalltalk_30, 0, 149)
M(ISvm, "NOLEARNNOPOINTS", no_learn_no_points, 0, 150)
M(ISvm, "NOLEARNOVERPERSONALMAX", no_learn_over_personal_max, 0, 151)
M(ISvm, "NOLEARNYOUREBETTER", no_learn_youre_better, 0, 152)
M(ISvm, "YOULEARNEDSOMETHING", you_learned_something, 0, 153)
M(ISvm, "UNTERSTADT", unterstadt, 0, 154)
M(ISvm, "OBERSTADT", oberstadt, 0, 155)
M(ISvm, "TEMPEL", tempel, 0, 156)
M(ISvm, "MARKT", markt, 0, 157)
M(ISvm, "GALGEN", galgen, 0, 158)
M(ISvm, "KASERNE", kaserne, 0, 159)
M(ISvm, "HAFEN", hafen, 0, 160)
M(ISvm, "WHERETO", whereto, 0, 161)
M(ISvm, "OBERSTADT_2_UNTERSTADT", oberstadt_2_unterstadt, 0, 162)
M(ISvm, "UNTERSTADT_2_OBERSTADT", unterstadt_2_oberstadt, 0, 163)
M(ISvm, "UNTERSTADT_2_TEMPEL", unterstadt_2_tempel, 0, 164)
M(ISvm, "UNTERSTADT_2_HAFEN", unterstadt_2_hafen, 0, 165)
M(ISvm, "TEMPEL_2_UNTERSTADT", tempel_2_unterstadt, 0, 166)
M(ISvm, "TEMPEL_2_MARKT", tempel_2_markt, 0, 167)
M(ISvm, "TEMPEL_2_GALGEN", tempel_2_galgen, 0, 168)
M(ISvm, "MARKT_2_TEMPEL", markt_2_tempel, 0, 169)
M(ISvm, "MARKT_2_KASERNE", markt_2_kaserne, 0, 170)
M(ISvm, "MARKT_2_GALGEN", markt_2_galgen, 0, 171)
M(ISvm, "GALGEN_2_TEMPEL", galgen_2_tempel, 0, 172)
M(ISvm, "GALGEN_2_MARKT", galgen_2_markt, 0, 173)
M(ISvm, "GALGEN_2_KASERNE", galgen_2_kaserne, 0, 174)
M(ISvm, "KASERNE_2_MARKT", kaserne_2_markt, 0, 175)
M(ISvm, "KASERNE_2_GALGEN", kaserne_2_galgen, 0, 176)
M(ISvm, "HAFEN_2_UNTERSTADT", hafen_2_unterstadt, 0, 177)
M(ISvm, "DEAD", dead, 0, 178)
M(ISvm, "AARGH_1", aargh_1, 0, 179)
M(ISvm, "AARGH_2", aargh_2, 0, 180)
M(ISvm, "AARGH_3", aargh_3, 0, 181)
M(ISvm, "ADDON_WRONGARMOR", addon_wrong_armor, 0, 182)
M(ISvm, "ADDON_WRONGARMOR_SLD", addon_wrong_armor_sld, 0, 183)
M(ISvm, "ADDON_WRONGARMOR_MIL", addon_wrong_armor_mil, 0, 184)
M(ISvm, "ADDON_WRONGARMOR_KDF", addon_wrong_armor_kdf, 0, 185)
M(ISvm, "ADDON_NOARMOR_BDT", addon_no_armor_bdt, 0, 186)
M(ISvm, "ADDON_DIEBANDIT", addon_die_bandit, 0, 187)
M(ISvm, "ADDON_DIRTYPIRATE", addon_dirty_pirate, 0, 188)
M(ISvm, "SC_HEYTURNAROUND", sc_hey_turn_around, 0, 189)
M(ISvm, "SC_HEYTURNAROUND02", sc_hey_turn_around_02, 0, 190)
M(ISvm, "SC_HEYTURNAROUND03", sc_hey_turn_around_03, 0, 191)
M(ISvm, "SC_HEYTURNAROUND04", sc_hey_turn_around_04, 0, 192)
M(ISvm, "SC_HEYWAITASECOND", sc_hey_wait_asecond, 0, 193)
M(ISvm, "DOESNTWORK", doesnt_mork, 0, 194)
M(ISvm, "PICKBROKE", pick_broke, 0, 195)
M(ISvm, "NEEDKEY", need_key, 0, 196)
M(ISvm, "NOMOREPICKS", no_more_picks, 0, 197)
M(ISvm, "NOPICKLOCKTALENT", no_pick_lock_talent, 0, 198)
M(ISvm, "NOSWEEPING", no_sweeping, 0, 199)
M(ISvm, "PICKLOCKORKEYMISSING", pick_lock_or_key_missing, 0, 200)
M(ISvm, "KEYMISSING", key_missing, 0, 201)
M(ISvm, "PICKLOCKMISSING", pick_lock_missing, 0, 202)
M(ISvm, "NEVEROPEN", never_open, 0, 203)
M(ISvm, "MISSINGITEM", missing_item, 0, 204)
M(ISvm, "DONTKNOW", dont_know, 0, 205)
M(ISvm, "NOTHINGTOGET", nothing_to_get, 0, 206)
M(ISvm, "NOTHINGTOGET02", nothing_to_get_02, 0, 207)
M(ISvm, "NOTHINGTOGET03", nothing_to_get_03, 0, 208)
M(ISvm, "HEALSHRINE", heal_shrine, 0, 209)
M(ISvm, "HEALLASTSHRINE", heal_last_shrine, 0, 210)
M(ISvm, "IRDORATHTHEREYOUARE", irdorath_there_you_are, 0, 211)
M(ISvm, "SCOPENSIRDORATHBOOK", sc_opens_irdorath_book, 0, 212)
M(ISvm, "SCOPENSLASTDOOR", sc_opens_last_door, 0, 213)
M(ISvm, "TRADE_1", trade_1, 0, 214)
M(ISvm, "TRADE_2", trade_2, 0, 215)
M(ISvm, "TRADE_3", trade_3, 0, 216)
M(ISvm, "VERSTEHE", verstehe, 0, 217)
M(ISvm, "FOUNDTREASURE", found_treasure, 0, 218)
M(ISvm, "CANTUNDERSTANDTHIS", cant_understand_this, 0, 219)
M(ISvm, "CANTREADTHIS", cant_read_this, 0, 220)
M(ISvm, "STONEPLATE_1", stoneplate_1, 0, 221)
M(ISvm, "STONEPLATE_2", stoneplate_2, 0, 222)
M(ISvm, "STONEPLATE_3", stoneplate_3, 0, 223)
M(ISvm, "COUGH", cough, 0, 224)
M(ISvm, "HUI", hui, 0, 225)
M(ISvm, "ADDON_THISLITTLEBASTARD", addon_this_little_bastard, 0, 226)
M(ISvm, "ADDON_OPENADANOSTEMPLE", addon_open_adanos_temple, 0, 227)
M(ISvm, "ATTENTAT_ADDON_DESCRIPTION", attentat_addon_description, 0, 228)
M(ISvm, "ATTENTAT_ADDON_DESCRIPTION2", attentat_addon_description_2, 0, 229)
M(ISvm, "ATTENTAT_ADDON_PRO", attentat_addon_pro, 0, 230)
M(ISvm, "ATTENTAT_ADDON_CONTRA", attentat_addon_contra, 0, 231)
M(ISvm, "MINE_ADDON_DESCRIPTION", mine_addon_description, 0, 232)
M(ISvm, "ADDON_SUMMONANCIENTGHOST", addon_summon_ancient_ghost, 0, 233)
M(ISvm, "ADDON_ANCIENTGHOST_NOTNEAR", addon_ancient_ghost_not_near, 0, 234)
M(ISvm, "ADDON_GOLD_DESCRIPTION", addon_gold_description, 0, 235)
M(ISvm, "WATCHYOURAIM", watch_your_aim, 0, 236)
M(ISvm, "WATCHYOURAIMANGRY", watch_your_aim_angry, 0, 237)
M(ISvm, "LETSFORGETOURLITTLEFIGHT", lets_forget_our_little_fight, 0, 238)
M(ISvm, "STRANGE", strange, 0, 239)
M(ISvm, "DIEMORTALENEMY", die_mortal_enemy, 0, 240)
M(ISvm, "NOWWAIT", now_wait, 0, 241)
M(ISvm, "NOWWAITINTRUDER", now_wait_intruder, 0, 242)
M(ISvm, "YOUSTILLNOTHAVEENOUGH", you_still_not_have_enough, 0, 243)
M(ISvm, "YOUATTACKEDMYCHARGE", you_attacked_my_charge, 0, 244)
M(ISvm, "IWILLTEACHYOURESPECTFORFOREIGNPROPERTY", iwill_teach_you_respect_for_foreign_property, 0, 245)
M(ISvm, "YOUKILLEDONEOFUS", you_killed_one_of_us, 0, 246)
M(ISvm, "BERZERK", berzerk, 0, 247)
M(ISvm, "YOULLBESORRYFORTHIS", youll_be_sorry_for_this, 0, 248)
M(ISvm, "YESYES", yes_yes, 0, 249)
M(ISvm, "SHITWHATAMONSTER", shit_what_amonster, 0, 250)
M(ISvm, "WEWILLMEETAGAIN", we_will_meet_again, 0, 251)
M(ISvm, "NEVERTRYTHATAGAIN", never_try_that_again, 0, 252)
M(ISvm, "ITOOKYOURORE", itook_your_ore, 0, 253)
M(ISvm, "SHITNOORE", shit_no_ore, 0, 254)
M(ISvm, "YOUVIOLATEDFORBIDDENTERRITORY", you_violated_forbidden_territory, 0, 255)
M(ISvm, "YOUWANNAFOOLME", you_wanna_fool_me, 0, 256)
M(ISvm, "WHATDIDYOUINTHERE", what_did_you_in_there, 0, 257)
M(ISvm, "INTRUDERALERT", intruder_alert, 0, 258)
M(ISvm, "BEHINDYOU", behind_you, 0, 259)
M(ISvm, "HEYHEYHEY", hey_hey_hey, 0, 260)
M(ISvm, "CHEERFIGHT", cheer_fight, 0, 261)
M(ISvm, "CHEERFRIEND", cheer_friend, 0, 262)
M(ISvm, "OOH", ooh, 0, 263)
M(ISvm, "YEAHWELLDONE", yeah_well_done, 0, 264)
M(ISvm, "HEDEFEATEDHIM", he_defeatedhim, 0, 265)
M(ISvm, "HEDESERVEDIT", he_deserv_edit, 0, 266)
M(ISvm, "HEKILLEDHIM", he_killed_him, 0, 267)
M(ISvm, "ITWASAGOODFIGHT", it_was_agood_fight, 0, 268)
M(ISvm, "FRIENDLYGREETINGS", friendly_greetings, 0, 269)
M(ISvm, "ALGREETINGS", al_greetings, 0, 270)
M(ISvm, "MAGEGREETINGS", mage_greetings, 0, 271)
M(ISvm, "SECTGREETINGS", sect_greetings, 0, 272)
M(ISvm, "THEREHEIS", there_he_is, 0, 273)
M(ISvm, "NOLEARNOVERMAX", no_learn_over_max, 0, 274)
M(ISvm, "NOLEARNYOUALREADYKNOW", no_learn_you_already_know, 0, 275)
M(ISvm, "HEYYOU", hey_you, 0, 276)
M(ISvm, "WHATDOYOUWANT", what_do_you_want, 0, 277)
M(ISvm, "ISAIDWHATDOYOUWANT", isaid_what_do_you_want, 0, 278)
M(ISvm, "MAKEWAY", make_way, 0, 279)
M(ISvm, "OUTOFMYWAY", out_of_my_way, 0, 280)
M(ISvm, "YOUDEAFORWHAT", you_deaf_or_what, 0, 281)
M(ISvm, "LOOKAWAY", look_away, 0, 282)
M(ISvm, "OKAYKEEPIT", okay_keep_it, 0, 283)
M(ISvm, "WHATSTHAT", whats_that, 0, 284)
M(ISvm, "THATSMYWEAPON", thats_my_weapon, 0, 285)
M(ISvm, "GIVEITTOME", give_it_tome, 0, 286)
M(ISvm, "YOUCANKEEPTHECRAP", you_can_keep_the_crap, 0, 287)
M(ISvm, "THEYKILLEDMYFRIEND", they_killed_my_friend, 0, 288)
M(ISvm, "SUCKERGOTSOME", sucker_got_some, 0, 289)
M(ISvm, "SUCKERDEFEATEDEBR", sucker_defeated_ebr, 0, 290)
M(ISvm, "SUCKERDEFEATEDGUR", sucker_defeated_gur, 0, 291)
M(ISvm, "SUCKERDEFEATEDMAGE", sucker_defeated_mage, 0, 292)
M(ISvm, "SUCKERDEFEATEDNOV_GUARD", sucker_defeated_nov_guard, 0, 293)
M(ISvm, "SUCKERDEFEATEDVLK_GUARD", sucker_defeated_vlk_guard, 0, 294)
M(ISvm, "YOUDEFEATEDMYCOMRADE", you_defeated_my_comrade, 0, 295)
M(ISvm, "YOUDEFEATEDNOV_GUARD", you_defeated_nov_guard, 0, 296)
M(ISvm, "YOUDEFEATEDVLK_GUARD", you_defeated_vlk_guard, 0, 297)
M(ISvm, "YOUSTOLEFROMME", you_stole_from_me, 0, 298)
M(ISvm, "YOUSTOLEFROMUS", you_stole_from_us, 0, 299)
M(ISvm, "YOUSTOLEFROMEBR", you_stole_from_ebr, 0, 300)
M(ISvm, "YOUSTOLEFROMGUR", you_stole_from_gur, 0, 301)
M(ISvm, "STOLEFROMMAGE", stole_urom_mage, 0, 302)
M(ISvm, "YOUKILLEDMYFRIEND", you_killedmyfriend, 0, 303)
M(ISvm, "YOUKILLEDEBR", you_killed_ebr, 0, 304)
M(ISvm, "YOUKILLEDGUR", you_killed_gur, 0, 305)
M(ISvm, "YOUKILLEDMAGE", you_killed_mage, 0, 306)
M(ISvm, "YOUKILLEDOCFOLK", you_killed_oc_folk, 0, 307)
M(ISvm, "YOUKILLEDNCFOLK", you_killed_nc_folk, 0, 308)
M(ISvm, "YOUKILLEDPSIFOLK", you_killed_psi_folk, 0, 309)
M(ISvm, "GETTHINGSRIGHT", get_things_right, 0, 310)
M(ISvm, "YOUDEFEATEDMEWELL", you_defeated_me_well, 0, 311)
M(ISvm, "OM", om, 0, 312)
E(ISvm)
C(IMenu, "C_MENU")
M(IMenu, "BACKPIC", back_pic, 0, 0)
M(IMenu, "BACKWORLD", back_world, 0, 0)
M(IMenu, "POSX", pos_x, 0, 0)
M(IMenu, "POSY", pos_y, 0, 0)
M(IMenu, "DIMX", dim_x, 0, 0)
M(IMenu, "DIMY", dim_y, 0, 0)
M(IMenu, "ALPHA", alpha, 0, 0)
M(IMenu, "MUSICTHEME", music_theme, 0, 0)
M(IMenu, "EVENTTIMERMSEC", event_timer_msec, 0, 0)
M(IMenu, "ITEMS", items, 0, 0)
M(IMenu, "FLAGS", flags, 0, 0)
M(IMenu, "DEFAULTOUTGAME", default_outgame, 0, 0)
M(IMenu, "DEFAULTINGAME", default_ingame, 0, 0)
E(IMenu)
C(IMenuItem, "C_MENU_ITEM")
M(IMenuItem, "FONTNAME", fontname, 0, 0)
M(IMenuItem, "TEXT", text, 0, 0)
M(IMenuItem, "BACKPIC", backpic, 0, 0)
M(IMenuItem, "ALPHAMODE", alphamode, 0, 0)
M(IMenuItem, "ALPHA", alpha, 0, 0)
M(IMenuItem, "TYPE", type, 0, 0)
M(IMenuItem, "ONSELACTION", on_sel_action, 0, 0)
M(IMenuItem, "ONSELACTION_S", on_sel_action_s, 0, 0)
M(IMenuItem, "ONCHGSETOPTION", on_chg_set_option, 0, 0)
M(IMenuItem, "ONCHGSETOPTIONSECTION", on_chg_set_option_section, 0, 0)
M(IMenuItem, "ONEVENTACTION", on_event_action, 1, 0)
M(IMenuItem, "POSX", pos_x, 0, 0)
M(IMenuItem, "POSY", pos_y, 0, 0)
M(IMenuItem, "DIMX", dim_x, 0, 0)
M(IMenuItem, "DIMY", dim_y, 0, 0)
M(IMenuItem, "SIZESTARTSCALE", size_start_scale, 0, 0)
M(IMenuItem, "FLAGS", flags, 0, 0)
M(IMenuItem, "OPENDELAYTIME", open_delay_time, 0, 0)
M(IMenuItem, "OPENDURATION", open_duration, 0, 0)
M(IMenuItem, "USERFLOAT", user_float, 0, 0)
M(IMenuItem, "USERSTRING", user_string, 0, 0)
M(IMenuItem, "FRAMESIZEX", frame_sizex, 0, 0)
M(IMenuItem, "FRAMESIZEY", frame_sizey, 0, 0)
M(IMenuItem, "FRAMEPOSX", frame_posx, 0, 1)
M(IMenuItem, "FRAMEPOSY", frame_posy, 0, 1)
M(IMenuItem, "HIDEIFOPTIONSECTIONSET", hide_if_option_section_set, 0, 2)
M(IMenuItem, "HIDEIFOPTIONSET", hide_if_option_set, 0, 2)
M(IMenuItem, "HIDEONVALUE", hide_on_value, 0, 2)
E(IMenuItem)
C(ICamera, "CCAMSYS")
M(ICamera, "BESTRANGE", best_range, 0, 0)
M(ICamera, "MINRANGE", min_range, 0, 0)
M(ICamera, "MAXRANGE", max_range, 0, 0)
M(ICamera, "BESTELEVATION", best_elevation, 0, 0)
M(ICamera, "MINELEVATION", min_elevation, 0, 0)
M(ICamera, "MAXELEVATION", max_elevation, 0, 0)
M(ICamera, "BESTAZIMUTH", best_azimuth, 0, 0)
M(ICamera, "MINAZIMUTH", min_azimuth, 0, 0)
M(ICamera, "MAXAZIMUTH", max_azimuth, 0, 0)
M(ICamera, "BESTROTZ", best_rot_z, 0, 0)
M(ICamera, "MINROTZ", min_rot_z, 0, 0)
M(ICamera, "MAXROTZ", max_rot_z, 0, 0)
M(ICamera, "ROTOFFSETX", rot_offset_x, 0, 0)
M(ICamera, "ROTOFFSETY", rot_offset_y, 0, 0)
M(ICamera, "ROTOFFSETZ", rot_offset_z, 0, 0)
M(ICamera, "TARGETOFFSETX", target_offset_x, 0, 0)
M(ICamera, "TARGETOFFSETY", target_offset_y, 0, 0)
M(ICamera, "TARGETOFFSETZ", target_offset_z, 0, 0)
M(ICamera, "VELOTRANS", velo_trans, 0, 0)
M(ICamera, "VELOROT", velo_rot, 0, 0)
M(ICamera, "TRANSLATE", translate, 0, 0)
M(ICamera, "ROTATE", rotate, 0, 0)
M(ICamera, "COLLISION", collision, 0, 0)
E(ICamera)
C(IMusicSystem, "C_MUSICSYS_CFG")
M(IMusicSystem, "VOLUME", volume, 0, 0)
M(IMusicSystem, "BITRESOLUTION", bit_resolution, 0, 0)
M(IMusicSystem, "GLOBALREVERBENABLED", global_reverb_enabled, 0, 0)
M(IMusicSystem, "SAMPLERATE", sample_rate, 0, 0)
M(IMusicSystem, "NUMCHANNELS", num_channels, 0, 0)
M(IMusicSystem, "REVERBBUFFERSIZE", reverb_buffer_size, 0, 0)
E(IMusicSystem)
C(IMusicTheme, "C_MUSICTHEME")
M(IMusicTheme, "FILE", file, 0, 0)
M(IMusicTheme, "VOL", vol, 0, 0)
M(IMusicTheme, "LOOP", loop, 0, 0)
M(IMusicTheme, "REVERBMIX", reverbmix, 0, 0)
M(IMusicTheme, "REVERBTIME", reverbtime, 0, 0)
M(IMusicTheme, "TRANSTYPE", transtype, 0, 0)
M(IMusicTheme, "TRANSSUBTYPE", transsubtype, 0, 0)
E(IMusicTheme)
C(IMusicJingle, "C_MUSICJINGLE")
M(IMusicJingle, "NAME", name, 0, 0)
M(IMusicJingle, "LOOP", loop, 0, 0)
M(IMusicJingle, "VOL", vol, 0, 0)
M(IMusicJingle, "TRANSSUBTYPE", transsubtype, 0, 0)
E(IMusicJingle)
C(IParticleEffect, "C_PARTICLEFX")
M(IParticleEffect, "PPSVALUE", pps_value, 0, 0)
M(IParticleEffect, "PPSSCALEKEYS_S", pps_scale_keys_s, 0, 0)
M(IParticleEffect, "PPSISLOOPING", pps_is_looping, 0, 0)
M(IParticleEffect, "PPSISSMOOTH", pps_is_smooth, 0, 0)
M(IParticleEffect, "PPSFPS", pps_fps, 0, 0)
M(IParticleEffect, "PPSCREATEEM_S", pps_create_em_s, 0, 0)
M(IParticleEffect, "PPSCREATEEMDELAY", pps_create_em_delay, 0, 0)
M(IParticleEffect, "SHPTYPE_S", shp_type_s, 0, 0)
M(IParticleEffect, "SHPFOR_S", shp_for_s, 0, 0)
M(IParticleEffect, "SHPOFFSETVEC_S", shp_offset_vec_s, 0, 0)
M(IParticleEffect, "SHPDISTRIBTYPE_S", shp_distrib_type_s, 0, 0)
M(IParticleEffect, "SHPDISTRIBWALKSPEED", shp_distrib_walk_speed, 0, 0)
M(IParticleEffect, "SHPISVOLUME", shp_is_volume, 0, 0)
M(IParticleEffect, "SHPDIM_S", shp_dim_s, 0, 0)
M(IParticleEffect, "SHPMESH_S", shp_mesh_s, 0, 0)
M(IParticleEffect, "SHPMESHRENDER_B", shp_mesh_render_b, 0, 0)
M(IParticleEffect, "SHPSCALEKEYS_S", shp_scale_keys_s, 0, 0)
M(IParticleEffect, "SHPSCALEISLOOPING", shp_scale_is_looping, 0, 0)
M(IParticleEffect, "SHPSCALEISSMOOTH", shp_scale_is_smooth, 0, 0)
M(IParticleEffect, "SHPSCALEFPS", shp_scale_fps, 0, 0)
M(IParticleEffect, "DIRMODE_S", dir_mode_s, 0, 0)
M(IParticleEffect, "DIRFOR_S", dir_for_s, 0, 0)
M(IParticleEffect, "DIRMODETARGETFOR_S", dir_mode_target_for_s, 0, 0)
M(IParticleEffect, "DIRMODETARGETPOS_S", dir_mode_target_pos_s, 0, 0)
M(IParticleEffect, "DIRANGLEHEAD", dir_angle_head, 0, 0)
M(IParticleEffect, "DIRANGLEHEADVAR", dir_angle_head_var, 0, 0)
M(IParticleEffect, "DIRANGLEELEV", dir_angle_elev, 0, 0)
M(IParticleEffect, "DIRANGLEELEVVAR", dir_angle_elev_var, 0, 0)
M(IParticleEffect, "VELAVG", vel_avg, 0, 0)
M(IParticleEffect, "VELVAR", vel_var, 0, 0)
M(IParticleEffect, "LSPPARTAVG", lsp_part_avg, 0, 0)
M(IParticleEffect, "LSPPARTVAR", lsp_part_var, 0, 0)
M(IParticleEffect, "FLYGRAVITY_S", fly_gravity_s, 0, 0)
M(IParticleEffect, "FLYCOLLDET_B", fly_colldet_b, 0, 0)
M(IParticleEffect, "VISNAME_S", vis_name_s, 0, 0)
M(IParticleEffect, "VISORIENTATION_S", vis_orientation_s, 0, 0)
M(IParticleEffect, "VISTEXISQUADPOLY", vis_tex_is_quadpoly, 0, 0)
M(IParticleEffect, "VISTEXANIFPS", vis_tex_ani_fps, 0, 0)
M(IParticleEffect, "VISTEXANIISLOOPING", vis_tex_ani_is_looping, 0, 0)
M(IParticleEffect, "VISTEXCOLORSTART_S", vis_tex_color_start_s, 0, 0)
M(IParticleEffect, "VISTEXCOLOREND_S", vis_tex_color_end_s, 0, 0)
M(IParticleEffect, "VISSIZESTART_S", vis_size_start_s, 0, 0)
M(IParticleEffect, "VISSIZEENDSCALE", vis_size_end_scale, 0, 0)
M(IParticleEffect, "VISALPHAFUNC_S", vis_alpha_func_s, 0, 0)
M(IParticleEffect, "VISALPHASTART", vis_alpha_start, 0, 0)
M(IParticleEffect, "VISALPHAEND", vis_alpha_end, 0, 0)
M(IParticleEffect, "TRLFADESPEED", trl_fade_speed, 0, 0)
M(IParticleEffect, "TRLTEXTURE_S", trl_texture_s, 0, 0)
M(IParticleEffect, "TRLWIDTH", trl_width, 0, 0)
M(IParticleEffect, "MRKFADESPEED", mrk_fades_peed, 0, 0)
M(IParticleEffect, "MRKTEXTURE_S", mrkt_exture_s, 0, 0)
M(IParticleEffect, "MRKSIZE", mrk_size, 0, 0)
M(IParticleEffect, "FLOCKMODE", flock_mode, 0, 1)
M(IParticleEffect, "FLOCKSTRENGTH", flock_strength, 0, 1)
M(IParticleEffect, "USEEMITTERSFOR", use_emitters_for, 0, 1)
M(IParticleEffect, "TIMESTARTEND_S", time_start_end_s, 0, 1)
M(IParticleEffect, "M_BISAMBIENTPFX", m_bis_ambient_pfx, 0, 1)
E(IParticleEffect)
C(IEffectBase, "CFX_BASE")
M(IEffectBase, "VISNAME_S", vis_name_s, 0, 0)
M(IEffectBase, "VISSIZE_S", vis_size_s, 0, 0)
M(IEffectBase, "VISALPHA", vis_alpha, 0, 0)
M(IEffectBase, "VISALPHABLENDFUNC_S", vis_alpha_blend_func_s, 0, 0)
M(IEffectBase, "VISTEXANIFPS", vis_tex_ani_fps, 0, 0)
M(IEffectBase, "VISTEXANIISLOOPING", vis_tex_ani_is_looping, 0, 0)
M(IEffectBase, "EMTRJMODE_S", em_trj_mode_s, 0, 0)
M(IEffectBase, "EMTRJORIGINNODE", em_trj_origin_node, 0, 0)
M(IEffectBase, "EMTRJTARGETNODE", em_trj_target_node, 0, 0)
M(IEffectBase, "EMTRJTARGETRANGE", em_trj_target_range, 0, 0)
M(IEffectBase, "EMTRJTARGETAZI", em_trj_target_azi, 0, 0)
M(IEffectBase, "EMTRJTARGETELEV", em_trj_target_elev, 0, 0)
M(IEffectBase, "EMTRJNUMKEYS", em_trj_num_keys, 0, 0)
M(IEffectBase, "EMTRJNUMKEYSVAR", em_trj_num_keys_var, 0, 0)
M(IEffectBase, "EMTRJANGLEELEVVAR", em_trj_angle_elev_var, 0, 0)
M(IEffectBase, "EMTRJANGLEHEADVAR", em_trj_angle_head_var, 0, 0)
M(IEffectBase, "EMTRJKEYDISTVAR", em_trj_key_dist_var, 0, 0)
M(IEffectBase, "EMTRJLOOPMODE_S", em_trj_loop_mode_s, 0, 0)
M(IEffectBase, "EMTRJEASEFUNC_S", em_trj_ease_func_s, 0, 0)
M(IEffectBase, "EMTRJEASEVEL", em_trj_ease_vel, 0, 0)
M(IEffectBase, "EMTRJDYNUPDATEDELAY", em_trj_dyn_update_delay, 0, 0)
M(IEffectBase, "EMTRJDYNUPDATETARGETONLY", em_trj_dyn_update_target_only, 0, 0)
M(IEffectBase, "EMFXCREATE_S", em_fx_create_s, 0, 0)
M(IEffectBase, "EMFXINVESTORIGIN_S", em_fx_invest_origin_s, 0, 0)
M(IEffectBase, "EMFXINVESTTARGET_S", em_fx_invest_target_s, 0, 0)
M(IEffectBase, "EMFXTRIGGERDELAY", em_fx_trigger_delay, 0, 0)
M(IEffectBase, "EMFXCREATEDOWNTRJ", em_fx_create_down_trj, 0, 0)
M(IEffectBase, "EMACTIONCOLLDYN_S", em_action_coll_dyn_s, 0, 0)
M(IEffectBase, "EMACTIONCOLLSTAT_S", em_action_coll_stat_s, 0, 0)
M(IEffectBase, "EMFXCOLLSTAT_S", em_fx_coll_stat_s, 0, 0)
M(IEffectBase, "EMFXCOLLDYN_S", em_fx_coll_dyn_s, 0, 0)
M(IEffectBase, "EMFXCOLLSTATALIGN_S", em_fx_coll_stat_align_s, 0, 0)
M(IEffectBase, "EMFXCOLLDYNALIGN_S", em_fx_coll_dyn_align_s, 0, 0)
M(IEffectBase, "EMFXLIFESPAN", em_fx_lifespan, 0, 0)
M(IEffectBase, "EMCHECKCOLLISION", em_check_collision, 0, 0)
M(IEffectBase, "EMADJUSTSHPTOORIGIN", em_adjust_shp_to_origin, 0, 0)
M(IEffectBase, "EMINVESTNEXTKEYDURATION", em_invest_next_key_duration, 0, 0)
M(IEffectBase, "EMFLYGRAVITY", em_fly_gravity, 0, 0)
M(IEffectBase, "EMSELFROTVEL_S", em_self_rot_vel_s, 0, 0)
M(IEffectBase, "USERSTRING", user_string, 0, 0)
M(IEffectBase, "LIGHTPRESETNAME", light_preset_name, 0, 0)
M(IEffectBase, "SFXID", sfx_id, 0, 0)
M(IEffectBase, "SFXISAMBIENT", sfx_is_ambient, 0, 0)
M(IEffectBase, "SENDASSESSMAGIC", send_assess_magic, 0, 0)
M(IEffectBase, "SECSPERDAMAGE", secs_per_damage, 0, 0)
M(IEffectBase, "EMFXCOLLDYNPERC_S", em_fx_coll_dyn_perc_s, 0, 1)
E(IEffectBase)
