// Random ZenKit object graphs and their comparison. One field visitor per class is used for both.
#pragma once
#include "core.hh"
#include <cmath>
#include <cstring>
#include <set>
#include <unordered_map>
#include <zenkit/Archive.hh>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/VirtualObject.hh>
#include <zenkit/vobs/Zone.hh>
#include <zenkit/world/WayNet.hh>

namespace sim {
	namespace z = zenkit;
	struct ObjCfg {
		z::ArchiveFormat fmt = z::ArchiveFormat::BINSAFE;
		bool g2 = true, save = false, pack = true;
	};

#define SIM_VOB_TYPES(X)                                                                                                                   \
	X(VirtualObject) X(VLevel) X(VItem) X(VNpc) X(VMoverController) X(VScreenEffect) X(VStair) X(VParticleEffectController) X(VAnimate)    \
	X(VLensFlare) X(VLight) X(VSpot) X(VStartPoint) X(VMessageFilter) X(VCodeMaster) X(VTriggerWorldStart) X(VCutsceneCamera)              \
	X(VCameraTrajectoryFrame) X(VTouchDamage) X(VTriggerUntouch) X(VEarthquake) X(VMovableObject) X(VInteractiveObject) X(VBed) X(VFire)   \
	X(VLadder) X(VSwitch) X(VWheel) X(VContainer) X(VDoor) X(VTrigger) X(VTriggerList) X(VTriggerScript) X(VTriggerChangeLevel)            \
	X(VCutsceneTrigger) X(VMover) X(VSound) X(VSoundDaytime) X(VZoneMusic) X(VZoneMusicDefault) X(VZoneFog) X(VZoneFogDefault)             \
	X(VZoneFarPlane) X(VZoneFarPlaneDefault)
#define SIM_OTHER_TYPES(X)                                                                                                                 \
	X(EventManager) X(AiHuman) X(AiMove) X(SkyController) X(CutscenePlayer) X(WayPoint) X(WayNet) X(Material) X(SaveMetadata)              \
	X(CutsceneManager) X(CutscenePoolItem) X(ConversationMessageEvent) X(CutsceneAtomicBlock) X(CutsceneBlock) X(CutsceneLibrary)          \
	X(CutsceneProps) X(CutsceneContext) X(VisualDecal) X(VisualMesh) X(VisualMultiResolutionMesh) X(VisualParticleEffect) X(VisualCamera)  \
	X(VisualModel) X(VisualMorphMesh)

	template <typename V>
	void visit_any(V& v, z::Object& a, z::Object& b); // by dynamic type

	// ---- field lists ---------------------------------------------------------------------------
	// f: plain field, e: enumeration with n values, o: object pointer, w: weak pointer, vec: vector of plain values.
	// save()/g2()/pack(): the field exists only there (the generator fills it anyway).
	template <typename V>
	void visit(V& v, z::VirtualObject& a, z::VirtualObject& b) {
		v.f("bbox.min", a.bbox.min, b.bbox.min, true);
		v.f("bbox.max", a.bbox.max, b.bbox.max, true);
		v.f("position", a.position, b.position, true);
		for (int i = 0; i < 9; ++i) v.f("rotation", a.rotation[i / 3][i % 3], b.rotation[i / 3][i % 3], true);
		v.f("show_visual", a.show_visual, b.show_visual);
		v.e("sprite_camera_facing_mode", a.sprite_camera_facing_mode, b.sprite_camera_facing_mode, 3);
		v.f("cd_static", a.cd_static, b.cd_static);
		v.f("cd_dynamic", a.cd_dynamic, b.cd_dynamic);
		v.f("vob_static", a.vob_static, b.vob_static);
		v.e("dynamic_shadows", a.dynamic_shadows, b.dynamic_shadows, 2);
		if (v.pack()) v.f("physics_enabled", a.physics_enabled, b.physics_enabled);
		if (v.g2()) {
			v.e("anim_mode", a.anim_mode, b.anim_mode, 3);
			v.i("bias", a.bias, b.bias, 0, 31);
			v.f("ambient", a.ambient, b.ambient);
			v.f("anim_strength", a.anim_strength, b.anim_strength, v.packed());
			v.f("far_clip_scale", a.far_clip_scale, b.far_clip_scale, v.packed());
		}
		v.f("preset_name", a.preset_name, b.preset_name);
		v.f("vob_name", a.vob_name, b.vob_name);
		v.visual(a, b);
		v.o("ai", a.ai, b.ai);
		if (v.save()) {
			if (v.pack()) v.o("event_manager", a.event_manager, b.event_manager);
			v.f("sleep_mode", a.sleep_mode, b.sleep_mode);
			v.f("next_on_timer", a.next_on_timer, b.next_on_timer);
			v.body(a, b);
		}
	}
	template <typename V>
	void visit(V& v, z::RigidBody& a, z::RigidBody& b) {
		v.f("vel", a.vel, b.vel);
		v.f("mode", a.mode, b.mode);
		v.f("gravity_enabled", a.gravity_enabled, b.gravity_enabled);
		v.f("gravity_scale", a.gravity_scale, b.gravity_scale);
		v.f("slide_direction", a.slide_direction, b.slide_direction);
	}
#define SIM_BASE(T, B) static_cast<z::B&>(a), static_cast<z::B&>(b)
#define SIM_AS(T, B)                                                                                                                       \
	template <typename V>                                                                                                                  \
	void visit(V& v, z::T& a, z::T& b) {                                                                                                   \
		visit(v, SIM_BASE(T, B));                                                                                                          \
	}
#define F(n) v.f(#n, a.n, b.n)
	SIM_AS(VLevel, VirtualObject)
	SIM_AS(VStair, VirtualObject)
	SIM_AS(VSpot, VirtualObject)
	SIM_AS(VStartPoint, VirtualObject)
	SIM_AS(VScreenEffect, VirtualObject)
	template <typename V>
	void visit(V& v, z::VItem& a, z::VItem& b) {
		visit(v, SIM_BASE(VItem, VirtualObject));
		F(instance);
		if (v.save()) {
			F(s_amount);
			F(s_flags);
		}
	}
	template <typename V>
	void visit(V& v, z::VAnimate& a, z::VAnimate& b) {
		visit(v, SIM_BASE(VAnimate, VirtualObject));
		F(start_on);
		if (v.save()) F(s_is_running);
		else v.same("s_is_running", a.start_on, b.s_is_running);
	}
	template <typename V>
	void visit(V& v, z::VLensFlare& a, z::VLensFlare& b) {
		visit(v, SIM_BASE(VLensFlare, VirtualObject));
		F(fx);
	}
	template <typename V>
	void visit(V& v, z::VParticleEffectController& a, z::VParticleEffectController& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(pfx_name);
		F(kill_when_done);
		F(initially_running);
	}
	template <typename V>
	void visit(V& v, z::VMessageFilter& a, z::VMessageFilter& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
		v.e("on_trigger", a.on_trigger, b.on_trigger, 6);
		v.e("on_untrigger", a.on_untrigger, b.on_untrigger, 6);
	}
	template <typename V>
	void visit(V& v, z::VCodeMaster& a, z::VCodeMaster& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
		F(ordered);
		F(first_false_is_failure);
		F(failure_target);
		F(untriggered_cancels);
		v.vec("slaves", a.slaves, b.slaves, 255, [&](auto& x, auto& y) { v.f("slave", x, y); });
		if (v.save() && v.g2()) F(s_num_triggered_slaves);
	}
	template <typename V>
	void visit(V& v, z::VMoverController& a, z::VMoverController& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
		v.e("message", a.message, b.message, 4);
		F(key);
	}
	template <typename V>
	void visit(V& v, z::VTouchDamage& a, z::VTouchDamage& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(damage);
		F(barrier);
		F(blunt);
		F(edge);
		F(fire);
		F(fly);
		F(magic);
		F(point);
		F(fall);
		F(repeat_delay_sec);
		F(volume_scale);
		v.e("collision", a.collision, b.collision, 3);
	}
	template <typename V>
	void visit(V& v, z::VEarthquake& a, z::VEarthquake& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(radius);
		F(duration);
		F(amplitude);
	}
	template <typename V>
	void visit(V& v, z::VNpc::Talent& a, z::VNpc::Talent& b) {
		F(talent);
		F(value);
		F(skill);
	}
	template <typename V>
	void visit(V& v, z::VNpc& a, z::VNpc& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(npc_instance);
		F(model_scale);
		F(model_fatness);
		v.vec("overlays", a.overlays, b.overlays, 300, [&](auto& x, auto& y) { v.f("overlay", x, y); });
		F(flags);
		F(guild);
		F(guild_true);
		F(level);
		F(xp);
		F(xp_next_level);
		F(lp);
		v.vec("talents", a.talents, b.talents, 40, [&](auto& x, auto& y) { v.o("talent", x, y); });
		F(fight_tactic);
		F(fight_mode);
		F(wounded);
		F(mad);
		F(mad_time);
		F(player);
		for (int i = 0; i < 8; ++i) F(attributes[i]);
		if (v.g2())
			for (int i = 0; i < 4; ++i) F(hit_chance[i]);
		for (int i = 0; i < 5; ++i) F(missions[i]);
		F(start_ai_state);
		for (int i = 0; i < (v.g2() ? 100 : 50); ++i) F(aivar[i]);
		F(script_waypoint);
		F(attitude);
		F(attitude_temp);
		F(name_nr);
		F(move_lock);
		v.vec("news", a.news, b.news, 40, [&](auto& pa, auto& pb) {
			if (!pa) pa = std::make_unique<z::VNpc::News>();
			auto& a = *pa;
			auto& b = *pb;
			F(told);
			F(spread_time);
			v.e("spread_type", a.spread_type, b.spread_type, 5);
			v.f("news_id", (int&) a.news_id, (int&) b.news_id);
			F(gossip);
			F(guild_victim);
			F(witness_name);
			F(offender_name);
			F(victim_name);
		});
		v.o("carry_vob", a.carry_vob, b.carry_vob);
		v.o("enemy", a.enemy, b.enemy);
		for (int i = 0; i < 9; ++i) v.plain("packed", a.packed[i], b.packed[i]);
		v.vec("items", a.items, b.items, 40, [&](auto& x, auto& y) { v.o("item", x, y); });
		v.vec("slots", a.slots, b.slots, 40, [&](auto& pa, auto& pb) {
			if (!pa) pa = std::make_unique<z::VNpc::Slot>();
			auto& a = *pa;
			auto& b = *pb;
			F(used);
			F(name);
			if (v.gen() || a.used) {
				v.o("slot.item", a.item, b.item);
				F(in_inventory);
			}
		});
		F(current_state_valid);
		F(current_state_name);
		F(current_state_index);
		F(current_state_is_routine);
		F(next_state_valid);
		F(next_state_name);
		F(next_state_index);
		F(next_state_is_routine);
		F(last_ai_state);
		F(has_routine);
		F(routine_changed);
		F(routine_overlay);
		F(routine_overlay_count);
		F(walkmode_routine);
		F(weaponmode_routine);
		F(start_new_routine);
		F(ai_state_driven);
		F(ai_state_pos);
		F(current_routine);
		F(respawn);
		F(respawn_time);
		for (int i = 0; i < 8; ++i) F(protection[i]);
		if (v.g2()) {
			F(bs_interruptable_override);
			F(npc_type);
			F(spell_mana);
		}
	}
	template <typename V>
	void visit(V& v, z::VMovableObject& a, z::VMovableObject& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(name);
		F(hp);
		F(damage);
		F(movable);
		F(takable);
		F(focus_override);
		v.e("material", a.material, b.material, 6);
		F(visual_destroyed);
		F(owner);
		F(owner_guild);
		F(destroyed);
	}
	template <typename V>
	void visit(V& v, z::VInteractiveObject& a, z::VInteractiveObject& b) {
		visit(v, SIM_BASE(x, VMovableObject));
		F(state_count);
		F(target);
		F(item);
		F(condition_function);
		F(on_state_change_function);
		F(rewind);
	}
	SIM_AS(VLadder, VInteractiveObject)
	SIM_AS(VSwitch, VInteractiveObject)
	SIM_AS(VWheel, VInteractiveObject)
	SIM_AS(VBed, VInteractiveObject)
	template <typename V>
	void visit(V& v, z::VFire& a, z::VFire& b) {
		visit(v, SIM_BASE(x, VInteractiveObject));
		F(slot);
		F(vob_tree);
	}
	template <typename V>
	void visit(V& v, z::VContainer& a, z::VContainer& b) {
		visit(v, SIM_BASE(x, VInteractiveObject));
		F(locked);
		F(key);
		F(pick_string);
		F(contents);
		if (v.save()) v.vec("s_items", a.s_items, b.s_items, 40, [&](auto& x, auto& y) { v.o("s_item", x, y); });
	}
	template <typename V>
	void visit(V& v, z::VDoor& a, z::VDoor& b) {
		visit(v, SIM_BASE(x, VInteractiveObject));
		F(locked);
		F(key);
		F(pick_string);
	}
	template <typename V>
	void visit(V& v, z::VTrigger& a, z::VTrigger& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
		F(start_enabled);
		F(send_untrigger);
		F(react_to_on_trigger);
		F(react_to_on_touch);
		F(react_to_on_damage);
		F(respond_to_object);
		F(respond_to_pc);
		F(respond_to_npc);
		F(vob_target);
		F(max_activation_count);
		F(retrigger_delay_sec);
		F(damage_threshold);
		F(fire_delay_sec);
		if (v.save()) {
			F(s_next_time_triggerable);
			F(s_count_can_be_activated);
			v.o("s_other_vob", a.s_other_vob, b.s_other_vob);
			if (v.g2()) F(s_is_enabled);
		} else v.same("s_count_can_be_activated", a.max_activation_count, b.s_count_can_be_activated);
	}
	SIM_AS(VCutsceneTrigger, VTrigger)
	template <typename V>
	void visit(V& v, z::VMover& a, z::VMover& b) {
		visit(v, SIM_BASE(x, VTrigger));
		v.e("behavior", a.behavior, b.behavior, 5);
		F(touch_blocker_damage);
		F(stay_open_time_sec);
		F(locked);
		F(auto_link);
		if (v.g2()) F(auto_rotate);
		v.vec("keyframes", a.keyframes, b.keyframes, 300, [&](auto& a, auto& b) {
			v.f("keyframe.position", a.position, b.position, true);
			v.f("keyframe.rotation.w", a.rotation.w, b.rotation.w, true);
			v.f("keyframe.rotation.x", a.rotation.x, b.rotation.x, true);
			v.f("keyframe.rotation.y", a.rotation.y, b.rotation.y, true);
			v.f("keyframe.rotation.z", a.rotation.z, b.rotation.z, true);
		});
		if (v.gen() || !a.keyframes.empty()) {
			F(speed);
			v.e("lerp_mode", a.lerp_mode, b.lerp_mode, 2);
			v.e("speed_mode", a.speed_mode, b.speed_mode, 7);
		}
		if (v.save()) {
			F(s_act_key_pos_delta);
			F(s_act_keyframe_f);
			F(s_act_keyframe);
			F(s_next_keyframe);
			F(s_move_speed_unit);
			F(s_advance_dir);
			v.e("s_mover_state", a.s_mover_state, b.s_mover_state, 256);
			F(s_trigger_event_count);
			F(s_stay_open_time_dest);
		}
		F(sfx_open_start);
		F(sfx_open_end);
		F(sfx_transitioning);
		F(sfx_close_start);
		F(sfx_close_end);
		F(sfx_lock);
		F(sfx_unlock);
		F(sfx_use_locked);
	}
	template <typename V>
	void visit(V& v, z::VTriggerList& a, z::VTriggerList& b) {
		visit(v, SIM_BASE(x, VTrigger));
		v.e("mode", a.mode, b.mode, 3);
		v.vec("targets", a.targets, b.targets, 255, [&](auto& a, auto& b) {
			v.f("target.name", a.name, b.name);
			v.f("target.delay", a.delay, b.delay);
		});
		if (v.save()) {
			F(s_act_target);
			F(s_send_on_trigger);
		}
	}
	template <typename V>
	void visit(V& v, z::VTriggerScript& a, z::VTriggerScript& b) {
		visit(v, SIM_BASE(x, VTrigger));
		F(function);
	}
	template <typename V>
	void visit(V& v, z::VTriggerChangeLevel& a, z::VTriggerChangeLevel& b) {
		visit(v, SIM_BASE(x, VTrigger));
		F(level_name);
		F(start_vob);
	}
	template <typename V>
	void visit(V& v, z::VTriggerWorldStart& a, z::VTriggerWorldStart& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
		F(fire_once);
		if (v.save() && v.g2()) F(s_has_fired);
	}
	template <typename V>
	void visit(V& v, z::VTriggerUntouch& a, z::VTriggerUntouch& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(target);
	}
	template <typename V>
	void visit(V& v, z::VSound& a, z::VSound& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(volume);
		v.e("mode", a.mode, b.mode, 3);
		F(random_delay);
		F(random_delay_var);
		F(initially_playing);
		F(ambient3d);
		F(obstruction);
		F(cone_angle);
		v.e("volume_type", a.volume_type, b.volume_type, 2);
		F(radius);
		F(sound_name);
		if (v.save()) {
			F(s_is_running);
			F(s_is_allowed_to_run);
		}
	}
	template <typename V>
	void visit(V& v, z::VSoundDaytime& a, z::VSoundDaytime& b) {
		visit(v, SIM_BASE(x, VSound));
		F(start_time);
		F(end_time);
		F(sound_name2);
	}
	template <typename V>
	void visit(V& v, z::VZoneMusic& a, z::VZoneMusic& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(enabled);
		F(priority);
		F(ellipsoid);
		F(reverb);
		F(volume);
		F(loop);
		if (v.save()) {
			F(s_local_enabled);
			F(s_day_entrance_done);
			F(s_night_entrance_done);
		}
	}
	SIM_AS(VZoneMusicDefault, VZoneMusic)
	template <typename V>
	void visit(V& v, z::VZoneFarPlane& a, z::VZoneFarPlane& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(vob_far_plane_z);
		F(inner_range_percentage);
	}
	SIM_AS(VZoneFarPlaneDefault, VZoneFarPlane)
	template <typename V>
	void visit(V& v, z::VZoneFog& a, z::VZoneFog& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(range_center);
		F(inner_range_percentage);
		F(color);
		if (v.g2()) {
			F(fade_out_sky);
			F(override_color);
		}
	}
	SIM_AS(VZoneFogDefault, VZoneFog)
	template <typename V>
	void visit(V& v, z::VLight& a, z::VLight& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(preset);
		v.e("light_type", a.light_type, b.light_type, 4);
		F(range);
		F(color);
		F(cone_angle);
		F(is_static);
		v.e("quality", a.quality, b.quality, 3);
		F(lensflare_fx);
		if (v.gen() || !a.is_static) {
			F(on);
			v.vec("range_animation_scale", a.range_animation_scale, b.range_animation_scale, 300, [&](auto& x, auto& y) { v.f("scale", x, y); });
			F(range_animation_fps);
			F(range_animation_smooth);
			v.vec("color_animation_list", a.color_animation_list, b.color_animation_list, 300, [&](auto& x, auto& y) {
				v.f("color.r", x.r, y.r);
				v.f("color.g", x.g, y.g);
				v.f("color.b", x.b, y.b);
			});
			F(color_animation_fps);
			F(color_animation_smooth);
			if (v.g2()) F(can_move);
		}
	}
	template <typename V>
	void visit(V& v, z::VCameraTrajectoryFrame& a, z::VCameraTrajectoryFrame& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		F(time);
		F(roll_angle);
		F(fov_scale);
		v.e("motion_type", a.motion_type, b.motion_type, 7);
		v.e("motion_type_fov", a.motion_type_fov, b.motion_type_fov, 7);
		v.e("motion_type_roll", a.motion_type_roll, b.motion_type_roll, 7);
		v.e("motion_type_time_scale", a.motion_type_time_scale, b.motion_type_time_scale, 7);
		F(tension);
		F(cam_bias);
		F(continuity);
		F(time_scale);
		F(time_fixed);
		for (int i = 0; i < 16; ++i) v.f("original_pose", a.original_pose.pointer()[i], b.original_pose.pointer()[i], true);
	}
	template <typename V>
	void visit(V& v, z::VCutsceneCamera& a, z::VCutsceneCamera& b) {
		visit(v, SIM_BASE(x, VirtualObject));
		v.e("trajectory_for", a.trajectory_for, b.trajectory_for, 2);
		v.e("target_trajectory_for", a.target_trajectory_for, b.target_trajectory_for, 2);
		v.e("loop_mode", a.loop_mode, b.loop_mode, 3);
		v.e("lerp_mode", a.lerp_mode, b.lerp_mode, 4);
		F(ignore_for_vob_rotation);
		F(ignore_for_vob_rotation_target);
		F(adapt);
		F(ease_first);
		F(ease_last);
		F(total_duration);
		F(auto_focus_vob);
		F(auto_player_movable);
		F(auto_untrigger_last);
		F(auto_untrigger_last_delay);
		v.vec("trajectory_frames", a.trajectory_frames, b.trajectory_frames, 20, [&](auto& x, auto& y) { v.o("trajectory_frame", x, y); });
		v.vec("target_frames", a.target_frames, b.target_frames, 20, [&](auto& x, auto& y) { v.o("target_frame", x, y); });
		if (v.gen()) {
			b.position_count = (int) b.trajectory_frames.size();
			b.target_count = (int) b.target_frames.size();
		} else {
			v.same("position_count", (int) a.trajectory_frames.size(), b.position_count);
			v.same("target_count", (int) a.target_frames.size(), b.target_count);
		}
		if (v.save() && v.g2()) {
			F(paused);
			F(started);
			F(goto_time_mode);
			F(cs_time);
		}
	}
	template <typename V>
	void visit(V& v, z::EventManager& a, z::EventManager& b) {
		F(cleared);
		F(active);
		v.w("cutscene", a.cutscene, b.cutscene);
	}
	template <typename V>
	void visit(V& v, z::AiHuman& a, z::AiHuman& b) {
		F(water_level);
		F(floor_y);
		F(water_y);
		F(ceil_y);
		F(feet_y);
		F(head_y);
		F(fall_dist_y);
		F(fall_start_y);
		v.w("npc", a.npc, b.npc);
		F(walk_mode);
		F(weapon_mode);
		F(wmode_ast);
		F(wmode_select);
		F(change_weapon);
		F(action_mode);
	}
	template <typename V>
	void visit(V& v, z::AiMove& a, z::AiMove& b) {
		v.w("vob", a.vob, b.vob);
		v.w("owner", a.owner, b.owner);
	}
	template <typename V>
	void visit(V& v, z::SkyController& a, z::SkyController& b) {
		F(master_time);
		F(rain_weight);
		F(rain_start);
		F(rain_stop);
		F(rain_sct_timer);
		F(rain_snd_vol);
		F(day_ctr);
		if (v.g2()) {
			F(fade_scale);
			F(render_lightning);
			F(is_raining);
			F(rain_ctr);
		}
	}
	template <typename V>
	void visit(V& v, z::CutscenePlayer& a, z::CutscenePlayer& b) {
		F(last_process_day);
		F(last_process_hour);
		v.vec("playlists", a.playlists, b.playlists, 8, [&](auto& x, auto& y) { v.w("playlist", x, y); });
	}
	template <typename V>
	void visit(V& v, z::WayPoint& a, z::WayPoint& b) {
		F(name);
		F(water_depth);
		F(under_water);
		F(position);
		F(direction);
	}
	template <typename V>
	void visit(V& v, z::WayNet& a, z::WayNet& b) {
		v.waynet(a, b);
	}
	template <typename V>
	void visit(V& v, z::Material& a, z::Material& b) {
		F(name);
		v.e("group", a.group, b.group, 6);
		F(color);
		F(smooth_angle);
		F(texture);
		F(texture_scale);
		F(texture_anim_fps);
		v.e("texture_anim_map_mode", a.texture_anim_map_mode, b.texture_anim_map_mode, 2);
		F(texture_anim_map_dir);
		F(disable_collision);
		F(disable_lightmap);
		F(dont_collapse);
		F(detail_object);
		if (v.g2()) {
			F(detail_object_scale);
			F(force_occluder);
			F(environment_mapping);
			F(environment_mapping_strength);
			v.e("wave_mode", a.wave_mode, b.wave_mode, 8);
			v.e("wave_speed", a.wave_speed, b.wave_speed, 4);
			F(wave_max_amplitude);
			F(wave_grid_size);
			F(ignore_sun);
			v.e("alpha_func", a.alpha_func, b.alpha_func, 8);
		}
		F(default_mapping);
	}
	template <typename V>
	void visit(V& v, z::SaveMetadata& a, z::SaveMetadata& b) {
		F(title);
		F(world);
		F(time_day);
		F(time_hour);
		F(time_minute);
		F(save_date);
		F(version_major);
		F(version_minor);
		F(play_time_seconds);
		if (v.g2()) {
			F(version_point);
			F(version_int);
			F(version_app_name);
		}
	}
	template <typename V>
	void visit(V& v, z::CutscenePoolItem& a, z::CutscenePoolItem& b) {
		F(name);
		v.e("run_behavior", a.run_behavior, b.run_behavior, 3);
		F(run_behavior_value);
		F(times_played);
		F(deactivated);
		F(flags);
	}
	template <typename V>
	void visit(V& v, z::CutsceneManager& a, z::CutsceneManager& b) {
		v.vec("pool_items", a.pool_items, b.pool_items, 300, [&](auto& x, auto& y) { v.o("pool_item", x, y); });
	}
	template <typename V>
	void visit(V& v, z::ConversationMessageEvent& a, z::ConversationMessageEvent& b) {
		v.e("type", a.type, b.type, 256);
		F(text);
		F(name);
		if (v.save()) {
			F(high_priority);
			F(used);
			F(deleted);
		}
	}
	template <typename V>
	void visit(V& v, z::CutsceneAtomicBlock& a, z::CutsceneAtomicBlock& b) {
		v.o("message", a.message, b.message);
	}
	template <typename V>
	void visit(V& v, z::CutsceneBlock& a, z::CutsceneBlock& b) {
		F(name);
		v.block(a, b);
	}
	template <typename V>
	void visit(V& v, z::CutsceneLibrary& a, z::CutsceneLibrary& b) {
		v.library(a, b);
	}
	template <typename V>
	void visit(V& v, z::CutsceneProps& a, z::CutsceneProps& b) {
		F(name);
		F(global);
		F(loop);
		F(has_to_be_triggered);
		F(distance);
		F(range);
		F(locked_block_count);
		v.e("run_behaviour", a.run_behaviour, b.run_behaviour, 256);
		F(run_behaviour_value);
		F(stage_name);
		F(script_function_on_stop);
	}
	template <typename V>
	void visit(V& v, z::CutsceneContext& a, z::CutsceneContext& b) {
		visit(v, SIM_BASE(x, CutsceneBlock));
		v.o("props", a.props, b.props);
		F(role_count);
		F(role_vob_count);
		v.w("npc", a.npc, b.npc);
		v.w("main_role", a.main_role, b.main_role);
		F(is_cutscene);
		F(reference);
		F(actual_block);
		v.o("alt_stage", a.alt_stage, b.alt_stage);
		v.o("stage", a.stage, b.stage);
		F(was_triggered);
	}
	template <typename V>
	void visit(V& v, z::Visual& a, z::Visual& b) {
		if (!v.gen()) v.same("visual.type", (int) a.get_object_type(), (int) b.get_object_type());
	}
	template <typename V>
	void visit(V& v, z::VisualDecal& a, z::VisualDecal& b) {
		F(dimension);
		F(offset);
		F(two_sided);
		v.e("alpha_func", a.alpha_func, b.alpha_func, 6);
		F(texture_anim_fps);
		if (v.g2()) {
			F(alpha_weight);
			F(ignore_daylight);
		}
	}
	SIM_AS(VisualMesh, Visual)
	SIM_AS(VisualMultiResolutionMesh, Visual)
	SIM_AS(VisualParticleEffect, Visual)
	SIM_AS(VisualCamera, Visual)
	SIM_AS(VisualModel, Visual)
	SIM_AS(VisualMorphMesh, Visual)
#undef F

	template <typename V>
	void visit_any(V& v, z::Object& a, z::Object& b) {
		auto t = a.get_object_type();
#define X(T)                                                                                                                               \
	if (t == z::T::TYPE) return visit(v, static_cast<z::T&>(a), static_cast<z::T&>(b));
		SIM_VOB_TYPES(X)
		SIM_OTHER_TYPES(X)
		if (t == z::VNpc::Talent::TYPE) return visit(v, static_cast<z::VNpc::Talent&>(a), static_cast<z::VNpc::Talent&>(b));
#undef X
	}

	// ---- generator -----------------------------------------------------------------------------
	struct ObjGen {
		Sim& s;
		ObjCfg c;
		size_t budget = 12;                          // objects that may still be created
		std::vector<std::shared_ptr<z::Object>> all; // keeps weakly referenced objects alive
		int depth = 0;
		bool in_item = false;
		ObjGen(Sim& s, ObjCfg c) : s(s), c(c) {}

		bool gen() const { return true; }
		bool g2() const { return true; }
		bool save() const { return true; }
		bool pack() const { return true; }
		bool packed() const { return true; }
		std::string text(bool semicolon = true) {
			static char const* const some[] = {"", "[]", "a b", "=", "int:5", "X", "LIGHT_01", "  s", "t  ", "\xC4\xDF", "%n", "[% a 0 0]"};
			std::string r;
			if (s.below(4)) r = some[s.below(12)];
			else {
				size_t n = s.below(10) ? s.below(12) : s.below(300);
				for (size_t i = 0; i < n; ++i) {
					char k = (char) (1 + s.below(255));
					if (k == '\n' || k == '\r') k = ' ';
					r.push_back(k);
				}
			}
			if (!semicolon)
				for (auto& k : r)
					if (k == ';') k = ',';
			return r;
		}
		void f(char const*, std::string&, std::string& b) { b = text(); }
		void plain(char const*, std::string&, std::string& b) { b = text(false); }
		void f(char const*, bool&, bool& b) { b = s.coin(); }
		void f(char const*, int32_t&, int32_t& b) { b = s.i32(); }
		void f(char const*, uint8_t&, uint8_t& b) { b = (uint8_t) s.u32(); }
		void f(char const*, float&, float& b, bool = false) { b = s.f32(); }
		void f(char const*, z::Vec3&, z::Vec3& b, bool = false) { b = {s.f32(), s.f32(), s.f32()}; }
		void f(char const*, z::Vec2&, z::Vec2& b, bool = false) { b = {s.f32(), s.f32()}; }
		void f(char const*, z::Color&, z::Color& b) {
			uint32_t k = s.u32();
			b = z::Color((uint8_t) k, (uint8_t) (k >> 8), (uint8_t) (k >> 16), (uint8_t) (k >> 24));
		}
		void i(char const*, int32_t&, int32_t& b, int lo, int hi) { b = (int32_t) s.range(lo, hi); }
		template <typename E>
		void e(char const*, E&, E& b, int n) { b = static_cast<E>(s.below((uint64_t) n)); }
		template <typename A, typename B>
		void same(char const*, A const&, B const&) {}
		template <typename T, typename Fn>
		void vec(char const*, std::vector<T>&, std::vector<T>& b, int max, Fn fn) {
			size_t n = s.below(12) ? s.below(3) : s.below(8) ? s.below((uint64_t) std::min(max, 8) + 1) : s.below((uint64_t) max + 1);
			b.clear();
			b.resize(n);
			for (auto& x : b) fn(x, x);
		}

		template <typename T>
		std::shared_ptr<T> fresh() {
			auto p = std::make_shared<T>();
			all.push_back(p);
			if (budget) --budget;
			++depth;
			open.push_back(p.get());
			bool was = in_item;
			if constexpr (std::is_same_v<T, z::VItem>) in_item = true;
			visit(*this, *p, *p);
			in_item = was;
			--depth;
			open.pop_back();
			complete.insert(p.get());
			return p;
		}
		/// A vob of any class.
		std::shared_ptr<z::VirtualObject> vob() {
			static constexpr int N = 0
#define X(T) +1
			    SIM_VOB_TYPES(X)
#undef X
			    ;
			int k = (int) s.below(N), j = 0;
#define X(T)                                                                                                                               \
	if (k == j++) return fresh<z::T>();
			SIM_VOB_TYPES(X)
#undef X
			return nullptr;
		}
		template <typename T>
		std::shared_ptr<T> reuse() {
			std::vector<std::shared_ptr<T>> m;
			for (auto& p : all) {
				if constexpr (std::is_abstract_v<T> || std::is_same_v<T, z::VirtualObject> || std::is_same_v<T, z::Ai> || std::is_same_v<T, z::Object>) {
					if (auto q = std::dynamic_pointer_cast<T>(p)) m.push_back(q);
				} else if (p->get_object_type() == T::TYPE) m.push_back(std::static_pointer_cast<T>(p));
			}
			return m.empty() ? nullptr : m[s.below(m.size())];
		}
		template <typename T>
		std::shared_ptr<T> make() {
			if constexpr (std::is_same_v<T, z::VirtualObject>) return vob();
			else if constexpr (std::is_same_v<T, z::Object>) return vob();
			else if constexpr (std::is_same_v<T, z::Ai>) {
				if (s.coin()) return fresh<z::AiMove>();
				return fresh<z::AiHuman>();
			} else return fresh<T>();
		}
		template <typename T>
		void o(char const*, std::shared_ptr<T>&, std::shared_ptr<T>& b) {
			b = nullptr;
			// (the flags of an item have to be known before an inventory that refers to it)
			if (in_item && std::is_base_of_v<z::Ai, T>) return;
			unsigned k = (unsigned) s.below(6);
			if (k == 5 && !all.empty()) b = acyclic(reuse<T>());
			else if (k >= 2 && budget && depth < 6) b = make<T>();
		}
		/// Strong cycles would leak; only weak references may close one.
		template <typename T>
		std::shared_ptr<T> acyclic(std::shared_ptr<T> p) {
			if (!p) return p;
			return complete.count((z::Object*) p.get()) ? p : nullptr;
		}
		template <typename T>
		void w(char const*, std::weak_ptr<T>&, std::weak_ptr<T>& b) {
			b.reset();
			if (in_item) return;
			unsigned k = (unsigned) s.below(4);
			if (k >= 2 && !all.empty()) b = reuse<T>();
			else if (k == 1 && budget && depth < 6) b = make<T>();
		}
		std::vector<z::Object*> open;
		std::set<z::Object*> complete; // objects whose fields are all set
		void visual(z::VirtualObject&, z::VirtualObject& b) {
			switch (s.below(10)) {
			case 0: b.visual = nullptr; return;
			case 1: b.visual = std::make_shared<z::Visual>(); break;
			case 2: {
				// shared with another vob
				if (auto r = reuse<z::VisualDecal>()) {
					b.visual = r;
					return;
				}
				[[fallthrough]];
			}
			case 3:
			case 4: b.visual = fresh<z::VisualDecal>(); break;
			case 5: b.visual = fresh<z::VisualMesh>(); break;
			case 6: b.visual = fresh<z::VisualMultiResolutionMesh>(); break;
			case 7: b.visual = s.coin() ? std::static_pointer_cast<z::Visual>(fresh<z::VisualParticleEffect>()) : fresh<z::VisualCamera>(); break;
			case 8: b.visual = fresh<z::VisualModel>(); break;
			default: b.visual = fresh<z::VisualMorphMesh>(); break;
			}
			switch (b.visual->get_object_type()) {
			case z::ObjectType::zCDecal: b.visual->type = z::VisualType::DECAL; break;
			case z::ObjectType::zCMesh: b.visual->type = z::VisualType::MESH; break;
			case z::ObjectType::zCProgMeshProto: b.visual->type = z::VisualType::MULTI_RESOLUTION_MESH; break;
			case z::ObjectType::zCParticleFX: b.visual->type = z::VisualType::PARTICLE_EFFECT; break;
			case z::ObjectType::zCAICamera: b.visual->type = z::VisualType::AI_CAMERA; break;
			case z::ObjectType::zCModel: b.visual->type = z::VisualType::MODEL; break;
			case z::ObjectType::zCMorphMesh: b.visual->type = z::VisualType::MORPH_MESH; break;
			default: b.visual->type = z::VisualType::UNKNOWN; break;
			}
			b.visual->name = text();
		}
		void body(z::VirtualObject&, z::VirtualObject& b) {
			b.rigid_body.reset();
			if (s.coin()) visit(*this, b.rigid_body.emplace(), *b.rigid_body);
		}
		void block(z::CutsceneBlock&, z::CutsceneBlock& b) {
			if (s.below(4) == 0 && depth < 6) b.block = fresh<z::CutsceneBlock>();
			else b.block = fresh<z::CutsceneAtomicBlock>();
		}
		void library(z::CutsceneLibrary&, z::CutsceneLibrary& b) {
			b.blocks.clear();
			std::set<std::string> names;
			size_t n = s.below(5);
			for (size_t i = 0; i < n; ++i) {
				auto p = fresh<z::CutsceneBlock>();
				if (names.insert(p->name).second) b.blocks.push_back(p);
			}
		}
		void waynet(z::WayNet&, z::WayNet& b) {
			b.points.clear();
			b.edges.clear();
			size_t n = s.below(7), ne = 0;
			for (size_t i = 0; i < n; ++i) b.points.push_back(fresh<z::WayPoint>());
			std::set<z::WayPoint*> used;
			if (n)
				for (ne = s.below(8); ne; --ne) {
					auto x = b.points[s.below(n)], y = b.points[s.below(n)];
					b.edges.emplace_back(x, y);
					used.insert(x.get());
					used.insert(y.get());
				}
			for (auto& p : b.points) p->free_point = !used.count(p.get()) || s.below(5) == 0;
		}
	};

	// ---- comparison ----------------------------------------------------------------------------
	struct ObjCmp {
		Sim& s;
		ObjCfg c;
		std::unordered_map<z::Object*, z::Object*> ab, ba;
		std::vector<std::string> where;
		uint64_t compared = 0;
		bool weak_may_expire = false; // nothing keeps objects that are only weakly referenced
		ObjCmp(Sim& s, ObjCfg c) : s(s), c(c) {}

		bool gen() const { return false; }
		bool g2() const { return c.g2; }
		bool save() const { return c.save; }
		bool pack() const { return c.pack; }
		bool packed() const { return c.pack; }
		std::string path() const {
			std::string r;
			for (auto& w : where) r += w + ".";
			return r;
		}
		[[noreturn]] void bad(char const* n, std::string const& got, std::string const& want) {
			s.fail(std::string("field-") + n, "%s%s: loaded %s, saved %s", path().c_str(), n, got.c_str(), want.c_str());
		}
		void f(char const* n, std::string& a, std::string& b) {
			if (a != b) bad(n, "'" + hex(b.data(), b.size()) + "'", "'" + hex(a.data(), a.size()) + "'");
		}
		void plain(char const* n, std::string& a, std::string& b) { f(n, a, b); }
		template <typename A, typename B>
		void same(char const* n, A const& a, B const& b) {
			if ((int64_t) a != (int64_t) b) bad(n, std::to_string((int64_t) b), std::to_string((int64_t) a));
		}
		void f(char const* n, bool& a, bool& b) { same(n, a, b); }
		void f(char const* n, int32_t& a, int32_t& b) { same(n, a, b); }
		void f(char const* n, uint8_t& a, uint8_t& b) { same(n, a, b); }
		void f(char const* n, float& a, float& b, bool exact = false) {
			uint32_t x, y;
			memcpy(&x, &a, 4);
			memcpy(&y, &b, 4);
			if (x == y) return;
			if (c.fmt == z::ArchiveFormat::ASCII && std::fabs((double) a - b) <= 5.1e-7 + std::fabs((double) a) * 1e-6) return;
			(void) exact;
			char p[64], q[64];
			snprintf(p, 64, "%.9g", (double) b);
			snprintf(q, 64, "%.9g", (double) a);
			bad(n, p, q);
		}
		void f(char const* n, z::Vec3& a, z::Vec3& b, bool = false) {
			f(n, a.x, b.x);
			f(n, a.y, b.y);
			f(n, a.z, b.z);
		}
		void f(char const* n, z::Vec2& a, z::Vec2& b, bool = false) {
			f(n, a.x, b.x);
			f(n, a.y, b.y);
		}
		void f(char const* n, z::Color& a, z::Color& b) {
			f(n, a.r, b.r);
			f(n, a.g, b.g);
			f(n, a.b, b.b);
			f(n, a.a, b.a);
		}
		void i(char const* n, int32_t& a, int32_t& b, int, int) { same(n, a, b); }
		template <typename E>
		void e(char const* n, E& a, E& b, int) { same(n, (int64_t) a, (int64_t) b); }
		template <typename T, typename Fn>
		void vec(char const* n, std::vector<T>& a, std::vector<T>& b, int, Fn fn) {
			if (a.size() != b.size()) bad(n, std::to_string(b.size()) + " entries", std::to_string(a.size()) + " entries");
			for (size_t k = 0; k < a.size(); ++k) fn(a[k], b[k]);
		}
		void obj(char const* n, z::Object* a, z::Object* b) {
			if (!a || !b) {
				if (a || b) bad(n, b ? "an object" : "none", a ? "an object" : "none");
				return;
			}
			auto it = ab.find(a);
			auto jt = ba.find(b);
			if (it != ab.end() || jt != ba.end()) {
				if (it == ab.end() || it->second != b || jt == ba.end() || jt->second != a)
					s.fail("sharing", "%s%s: objects that were %s are %s after loading", path().c_str(), n, it != ab.end() ? "one and the same" : "distinct", it != ab.end() ? "distinct" : "one and the same");
				return;
			}
			if (a->get_object_type() != b->get_object_type()) bad(n, "class " + std::to_string((int) b->get_object_type()), "class " + std::to_string((int) a->get_object_type()));
			ab[a] = b;
			ba[b] = a;
			++compared;
			where.push_back(n);
			visit_any(*this, *a, *b);
			where.pop_back();
		}
		template <typename T>
		void o(char const* n, std::shared_ptr<T>& a, std::shared_ptr<T>& b) { obj(n, (z::Object*) a.get(), (z::Object*) b.get()); }
		template <typename T>
		void w(char const* n, std::weak_ptr<T>& a, std::weak_ptr<T>& b) {
			auto x = a.lock(), y = b.lock();
			if (weak_may_expire && !y) return;
			obj(n, (z::Object*) x.get(), (z::Object*) y.get());
		}
		void visual(z::VirtualObject& a, z::VirtualObject& b) {
			if (!b.visual) bad("visual", "none", "a visual");
			if (!a.visual || a.visual->type == z::VisualType::UNKNOWN) {
				same("visual.type", (int) z::VisualType::UNKNOWN, (int) b.visual->type);
				std::string empty;
				f("visual.name", a.visual ? a.visual->name : empty, b.visual->name);
				if (ba.count(b.visual.get())) s.fail("sharing", "%svisual: two objects share one default visual", path().c_str());
				return;
			}
			same("visual.type", (int) a.visual->type, (int) b.visual->type);
			f("visual.name", a.visual->name, b.visual->name);
			obj("visual", a.visual.get(), b.visual.get());
		}
		void body(z::VirtualObject& a, z::VirtualObject& b) {
			bool want = a.physics_enabled || !c.pack;
			same("rigid_body", want, b.rigid_body.has_value());
			if (!want) return;
			auto x = a.rigid_body.value_or(z::RigidBody {});
			visit(*this, x, *b.rigid_body);
		}
		void block(z::CutsceneBlock& a, z::CutsceneBlock& b) {
			same("block.kind", a.block.index(), b.block.index());
			if (a.block.index()) o("block", std::get<1>(a.block), std::get<1>(b.block));
			else o("block", std::get<0>(a.block), std::get<0>(b.block));
			auto ma = a.get_message(), mb = b.get_message();
			obj("get_message", ma.get(), mb.get());
		}
		void library(z::CutsceneLibrary& a, z::CutsceneLibrary& b) {
			same("blocks", a.blocks.size(), b.blocks.size());
			for (auto& p : a.blocks) {
				auto q = b.block_by_name(p->name);
				obj("block_by_name", p.get(), q.get());
			}
			for (char const* n : {"no such block", "\x01", "\xFF\xFF", "M"}) {
				bool has = false;
				for (auto& p : a.blocks) has |= p->name == n;
				if (!has && b.block_by_name(n)) s.fail("block-by-name", "block_by_name returned a block for an unknown name");
			}
		}
		void waynet(z::WayNet& a, z::WayNet& b) {
			std::vector<z::WayPoint*> want;
			std::set<z::WayPoint*> seen;
			for (auto& p : a.points)
				if (p->free_point && seen.insert(p.get()).second) want.push_back(p.get());
			size_t nfree = want.size();
			for (auto& [l, r] : a.edges) {
				if (seen.insert(l.get()).second) want.push_back(l.get());
				if (seen.insert(r.get()).second) want.push_back(r.get());
			}
			same("points", want.size(), b.points.size());
			for (size_t k = 0; k < want.size(); ++k) {
				obj("point", want[k], b.points[k].get());
				same("free_point", k < nfree, b.points[k]->free_point);
			}
			same("edges", a.edges.size(), b.edges.size());
			for (size_t k = 0; k < a.edges.size(); ++k) {
				obj("edge.left", a.edges[k].first.get(), b.edges[k].first.get());
				obj("edge.right", a.edges[k].second.get(), b.edges[k].second.get());
			}
		}
	};
} // namespace sim
